SPECIFICATION Spec
CONSTANT Lines = 5
PROPERTY Done
INVARIANT NeverStuck
CHECK_DEADLOCK FALSE
