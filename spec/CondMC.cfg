SPECIFICATION Spec
INVARIANTS Globs Lists KnownInv
CHECK_DEADLOCK FALSE
