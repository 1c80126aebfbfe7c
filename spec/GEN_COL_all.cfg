SPECIFICATION Spec
CONSTANTS
  D = 8
  GEN = TRUE
  BIG = TRUE
  OPS = {"copy", "select_time_values", "initial_states", "final_states", "ic.from_tsc", "getcols", "loc.ids", "iloc.rows", "insert_ts", "concat", "col.set", "loc.set", "assign_ids_sequential", "normalize_time", "drop_last", "shift_delta", "shift_per", "fill_last", "windows", "assign_ids_train_test", "shift_matrices", "insert_ts", "select_time_values"}
INVARIANT Emit
