SPECIFICATION Spec
CONSTANTS
  Items = 4
  Workers = 2
  Mutant = "none"
INVARIANTS Once Complete Failure NoPanic ClosedBeforeReturn
PROPERTIES Ends
CHECK_DEADLOCK TRUE
