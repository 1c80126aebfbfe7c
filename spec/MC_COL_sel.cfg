SPECIFICATION Spec
CONSTANTS
  D = 2
  GEN = FALSE
  BIG = FALSE
  OPS = {"copy", "select_time_values", "initial_states", "final_states", "ic.from_tsc", "getcols", "loc.ids", "iloc.rows", "insert_ts", "concat", "col.set", "loc.set"}
VIEW view
INVARIANT AllWellFormed
INVARIANT SelectionLaws
INVARIANT ShiftLaws
INVARIANT PairLaws
INVARIANT WindowLaws
INVARIANT QueryLaws
INVARIANT DelayLaws
