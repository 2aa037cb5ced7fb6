SPECIFICATION Spec
CONSTANTS
  K = 3
  MaxBatch = 3
  TrialPts <- TrialPtsV
  OptPts <- OptPtsV
  OutPts = {21}
  Vals = {0, 1, 2, 3}
  Waits = {1, 2}
  DFs = {0, 1, 2, 3}
  Tols = {0, 1}
  Targets <- TargetsV
  Excls = {TRUE, FALSE}
  Emit = TRUE
CHECK_DEADLOCK FALSE
