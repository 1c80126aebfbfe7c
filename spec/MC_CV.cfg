SPECIFICATION Spec
CONSTANTS
  MaxSeries = 3
  MaxLen = 4
  EMIT = FALSE
INVARIANTS LeakFree TestedAtMostOnce Complete WindowsAsDefined WindowInSeries PiecesLongEnough
