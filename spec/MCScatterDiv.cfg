SPECIFICATION Spec
CONSTANTS
  W = 16
  Pops = {3, 4}
  Grid <- GridV
  MaxCustom = 2
  InfeasSets <- InfV
  Vals = {0}
  ErrV = 3000000
  PertVals = {3000000}
  Emit = FALSE
INVARIANTS InBoundsFeasible SeedsPresent SizeExact MdExact Spread BestKept KeepsBest Unchanged NeverWorse Shape
CHECK_DEADLOCK FALSE
