SPECIFICATION Spec
INVARIANTS Once ToldKind
PROPERTIES FirstWins ToldOnce
CHECK_DEADLOCK FALSE
