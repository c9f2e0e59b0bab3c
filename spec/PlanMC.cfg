SPECIFICATION Spec
INVARIANTS Emit Acyclic Closed Whole Numbered Count Registered
CHECK_DEADLOCK FALSE
