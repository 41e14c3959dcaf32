SPECIFICATION Spec
CONSTANTS
  B = 2
  N = 3
  Algorithms = {"branching_abs"}
INVARIANTS SamePath
CHECK_DEADLOCK FALSE
