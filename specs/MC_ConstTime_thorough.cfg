SPECIFICATION Spec
CONSTANTS
  B = 4
  N = 2
  Algorithms = {"add", "sub", "and_bool", "count_digits", "shift", "abs", "is_positive", "field_sub"}
INVARIANTS SamePath Right
CHECK_DEADLOCK FALSE
