SPECIFICATION Spec
CONSTANTS
  N = 3
INVARIANTS ByHistory Undone Grouped Stays
CHECK_DEADLOCK FALSE
