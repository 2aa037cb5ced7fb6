SPECIFICATION Spec
CONSTANTS
  W = 16
  Pops = {3, 4}
  Grid = {4, 12}
  MaxCustom = 1
  InfeasSets <- InfNone
  Vals = {0, 1, 1000000}
  ErrV = 3000000
  PertVals = {3000000}
  Emit = FALSE
INVARIANTS InBoundsFeasible SeedsPresent SizeExact MdExact Spread BestKept KeepsBest Unchanged NeverWorse Shape
CHECK_DEADLOCK FALSE
