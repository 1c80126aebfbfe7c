SPECIFICATION Spec
CONSTANTS
  D = 11
  NOBJ = 3
  DATA = {"d1", "d2"}
  INPUTS = {"x1", "x2", "x3"}
  PARS = {"p1", "p2"}
  RESET = TRUE
  GEN = TRUE
INVARIANTS Emit
