SPECIFICATION Spec
CONSTANTS
  B = 2
  N = 3
  Algorithms = {"count_digits_fast"}
INVARIANTS SamePath
CHECK_DEADLOCK FALSE
