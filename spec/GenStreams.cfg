SPECIFICATION Spec
CONSTANTS
  MaxScript = 3
  MaxFault = 10
INVARIANTS Emit
CHECK_DEADLOCK FALSE
