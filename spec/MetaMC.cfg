SPECIFICATION Spec
CONSTANTS
  N = 3
INVARIANTS Fits Line_ Stripped CarriedTwice Kept
CHECK_DEADLOCK FALSE
