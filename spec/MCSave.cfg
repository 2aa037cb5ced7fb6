SPECIFICATION Spec
CONSTANTS
  Size = 3
  Saves = 3
  Keep = FALSE
INVARIANT Recoverable
CHECK_DEADLOCK FALSE
