SPECIFICATION Spec
CONSTANTS
  MaxSols = 2
  MaxCons = 1
INVARIANTS NeverMore Complete
CHECK_DEADLOCK FALSE
