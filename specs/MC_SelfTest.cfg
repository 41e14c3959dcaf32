SPECIFICATION Spec
INVARIANT Holds
CHECK_DEADLOCK FALSE
