SPECIFICATION Spec
CONSTANTS
  Items = 5
  Workers = 3
  Mutant = "none"
INVARIANTS Once Complete Failure NoPanic ClosedBeforeReturn
PROPERTIES Ends
CHECK_DEADLOCK TRUE
