SPECIFICATION Spec
CONSTANTS
  MaxTrials = 3
  MaxBatch = 2
  Vals = {0, 1, 2, 9}
  Pts <- PtsV
  Tol = 1
  DF = 1
  WaitC = 2
  ExclC = TRUE
  Target <- TargetV
  TopVal = 9
INVARIANTS BestNeverLost SetIsEquivalent SetIsSeparated SetIsGenuine SetIsComplete InBoundsOnly BatchOneIsSequential UnchBelowWait Remembered
PROPERTIES BestMonotone FounderMonotone HistoryGrows
CHECK_DEADLOCK FALSE
