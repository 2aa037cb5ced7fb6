SPECIFICATION Spec
CONSTANTS
  MaxP = 4
  MaxEra = 3
  MaxB = 2
INVARIANTS OnceEach NewParametersDecide HistoryKept ErasInOrder RefTagged
PROPERTIES RefKept
CHECK_DEADLOCK FALSE
