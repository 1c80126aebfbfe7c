SPECIFICATION Spec
CONSTANTS
  D = 7
  GEN = TRUE
  BIG = TRUE
  OPS = {"copy", "select_time_values", "initial_states", "final_states", "ic.from_tsc", "getcols", "loc.ids", "iloc.rows", "insert_ts", "concat", "col.set", "loc.set"}
INVARIANT Emit
