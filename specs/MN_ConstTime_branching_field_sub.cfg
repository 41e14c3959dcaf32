SPECIFICATION Spec
CONSTANTS
  B = 2
  N = 3
  Algorithms = {"branching_field_sub"}
INVARIANTS SamePath
CHECK_DEADLOCK FALSE
