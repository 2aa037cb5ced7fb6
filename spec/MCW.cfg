SPECIFICATION Spec
CONSTANTS
  NTrials = 3
  BatchSize = 2
  Workers = {w1, w2}
  TrialSet <- TS
  DF = 1
  WaitC = 2
  TopVal = 9
INVARIANTS Confluent CheckpointIsBoundary
CHECK_DEADLOCK FALSE
