SPECIFICATION Spec
CONSTANTS N = 4
MaxPar = 2
Mutant = ""
INVARIANTS Commits ParentsDeclared Keys ChildrenDeclared ReadIsClosed
CHECK_DEADLOCK FALSE
