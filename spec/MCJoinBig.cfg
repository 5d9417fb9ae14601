SPECIFICATION Spec
CONSTANTS N = 3
Mutant = ""
INVARIANTS Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
