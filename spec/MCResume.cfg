SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  MaxB = 3
  MaxF = 3
  MaxCrash = 3
  Cap = 0
INVARIANTS SameResult Exact StartsAfterCheckpoint Progress
PROPERTIES RestartKeeps Ends0
CHECK_DEADLOCK FALSE
