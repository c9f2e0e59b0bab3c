SPECIFICATION LiveSpec
PROPERTIES EveryRunEnds
CHECK_DEADLOCK FALSE
