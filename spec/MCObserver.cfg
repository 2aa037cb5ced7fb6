SPECIFICATION Spec
CONSTANTS
  MaxIter = 5
  Freqs = {1, 2, 3}
  Batches = {1}
INVARIANTS Stage1First InOrder ExactlyDivisible Views Views2 ModeRespected NeverBoth
CHECK_DEADLOCK FALSE
