SPECIFICATION LiveSpec
VIEW View
INVARIANTS NoViolation
PROPERTIES AlwaysOver
