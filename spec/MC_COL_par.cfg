SPECIFICATION Spec
CONSTANTS
  D = 2
  GEN = FALSE
  BIG = FALSE
  OPS = {"assign_ids_sequential", "normalize_time", "drop_last", "shift_delta", "shift_per", "fill_last", "windows", "assign_ids_train_test", "shift_matrices", "insert_ts", "select_time_values"}
VIEW view
INVARIANT AllWellFormed
INVARIANT SelectionLaws
INVARIANT ShiftLaws
INVARIANT PairLaws
INVARIANT WindowLaws
INVARIANT QueryLaws
INVARIANT DelayLaws
