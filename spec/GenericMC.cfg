SPECIFICATION Spec
CONSTANTS
  N = 4
INVARIANTS Balanced Once Joins Subsets_ Absent Sections
CHECK_DEADLOCK FALSE
