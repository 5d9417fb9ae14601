SPECIFICATION Spec
CONSTANTS
  Mutant = ""
  Paths = {1, 2}
INVARIANTS FirstReason Limits CacheIsByPath
CHECK_DEADLOCK FALSE
