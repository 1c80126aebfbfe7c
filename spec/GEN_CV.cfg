SPECIFICATION SpecGen
CONSTANTS
  MaxSeries = 3
  MaxLen = 4
  EMIT = TRUE
INVARIANTS Emit
