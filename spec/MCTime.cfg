SPECIFICATION Spec
CONSTANTS
  Iterations = 3
  BatchSize = 2
  MaxCall = 2
  MaxLimit = 4
  Sessions = 2
INVARIANTS NoLateBatch NotEarly Kept Rule Agree Unreached
PROPERTIES Ends
CHECK_DEADLOCK FALSE
