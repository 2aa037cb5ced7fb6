SPECIFICATION Spec
CONSTANTS
  Points = {1, 2}
  Vals = {0, 1, 1000000}
  MaxCalls = 3
  Algs = {"LBFGS", "TrustRegion", "NelderMead", "COBYLA"}
  Fields = {1, 2}
  Values = {1, 2}
  MaxSets = 2
INVARIANTS GenuineResult NeverWorse CountExact FailureEnds NoDerivatives NoHessians LastWriteWins
CHECK_DEADLOCK FALSE
