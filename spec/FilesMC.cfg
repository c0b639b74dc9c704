SPECIFICATION Spec
CONSTANTS
  N = 3
INVARIANTS Typed Refused Reading Cases Unique
CHECK_DEADLOCK FALSE
