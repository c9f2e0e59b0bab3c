SPECIFICATION Spec
VIEW View
INVARIANTS NoViolation C01_Deps C01_Once C01_Immediate C02_Complete C02_NoStuck C13_Off C03_Order C03_Policy C04_Job C04_Wf C05_Nested C06_OneAtATime C07_Prefix C08_Cancel C08_C09_Signals QuietSound
PROPERTIES Monotone EndFinal
CHECK_DEADLOCK FALSE
