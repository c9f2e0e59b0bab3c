SPECIFICATION Spec
INVARIANT Right
PROPERTIES Sticky Balanced
CHECK_DEADLOCK FALSE
