SPECIFICATION Spec
CONSTANTS
  MaxCallbacks = 4
  MaxIter = 5
INVARIANTS OnlyItsStage OnlyObserved MilestonesOnceInOrder Iterations NoChangeLost NoRepetition AllWithoutFilter MilestonesComplete
CHECK_DEADLOCK FALSE
