SPECIFICATION Spec
CONSTANTS
  N = 3
INVARIANTS ReadsBack Twice Bare_ Commands_ Numbers
CHECK_DEADLOCK FALSE
