SPECIFICATION Spec
CONSTANTS
  D = 6
  NOBJ = 3
  DATA = {"d1", "d2"}
  INPUTS = {"x1"}
  PARS = {"p1", "p2"}
  RESET = TRUE
  GEN = FALSE
INVARIANTS ResultIsFunctionOfFit CloneUnfitted SameKeySameResult
VIEW view
