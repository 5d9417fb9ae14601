SPECIFICATION Spec
CONSTANTS Repos = 2
MaxCommits = 3
Mutant = ""
INVARIANT Right
INVARIANT Whole
PROPERTY Ends
CHECK_DEADLOCK FALSE
