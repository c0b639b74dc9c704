SPECIFICATION Spec
CONSTANTS
  N = 3
INVARIANTS Separate Isolated Repeatable
CHECK_DEADLOCK FALSE
