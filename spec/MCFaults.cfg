SPECIFICATION Spec
CONSTANTS
  Refs = 2
  Trials = 2
  Batches = 2
  BatchSize = 2
  Len1 = 3
  Algs = {"COBYLA", "NelderMead", "LBFGS", "TrustRegion"}
INVARIANTS Consistent TrialFailuresHarmless SequentialStops Accounted
PROPERTIES Ends
CHECK_DEADLOCK FALSE
