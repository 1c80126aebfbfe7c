SPECIFICATION Spec
CONSTANTS
  D = 7
  GEN = TRUE
  BIG = TRUE
  OPS = {"assign_ids_sequential", "normalize_time", "drop_last", "shift_delta", "shift_per", "fill_last", "windows", "assign_ids_train_test", "shift_matrices", "insert_ts", "select_time_values"}
INVARIANT Emit
