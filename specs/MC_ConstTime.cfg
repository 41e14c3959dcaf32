SPECIFICATION Spec
CONSTANTS
  B = 2
  N = 3
  Algorithms = {"add", "sub", "and_bool", "count_digits", "shift", "abs", "is_positive", "field_sub"}
INVARIANTS SamePath Right
CHECK_DEADLOCK FALSE
