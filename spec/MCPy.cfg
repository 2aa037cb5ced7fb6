SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Problems = {1, 2}
  Versions = {1, 2}
  MaxRuns = 2
  MaxCalls = 2
  MaxDepth = 2
  HoldWhileCalling = FALSE
  ForgetOuter = FALSE
  NotReentrant = FALSE
INVARIANTS OwnConstraints Unaffected NothingHeld Serial
CHECK_DEADLOCK TRUE
