SPECIFICATION Spec
CONSTANTS
  Mgrs <- MgrsV
  Iters = {0, 2, 1000000}
  Keeps = {0, 1, 2}
  Foreign <- ForeignV
  L = 4
  Emit = FALSE
INVARIANTS LoadIsRight ForeignIntact
PROPERTIES Independent CleanKeepsNewest
CHECK_DEADLOCK FALSE
