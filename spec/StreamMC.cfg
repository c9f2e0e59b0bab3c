SPECIFICATION Spec
INVARIANTS Ordered Complete Waits
PROPERTY FirstEnd
CHECK_DEADLOCK FALSE
