SPECIFICATION Spec
VIEW View
INVARIANTS NoViolation Truthful Clean
