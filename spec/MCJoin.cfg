SPECIFICATION Spec
CONSTANTS N = 2
Mutant = ""
INVARIANTS Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
