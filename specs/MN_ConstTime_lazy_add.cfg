SPECIFICATION Spec
CONSTANTS
  B = 2
  N = 3
  Algorithms = {"lazy_add"}
INVARIANTS SamePath
CHECK_DEADLOCK FALSE
