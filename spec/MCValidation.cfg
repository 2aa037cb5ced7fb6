SPECIFICATION Spec
CONSTANTS
  Pops = {0, 1, 3, 4, 5}
  MaxPts = 2
  MaxDim = 2
  Emit = FALSE
INVARIANTS RejectedIffInvalid Specific
PROPERTIES Ends
CHECK_DEADLOCK FALSE
