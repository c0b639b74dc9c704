SPECIFICATION Spec
CONSTANTS
  N = 2
INVARIANTS SoFar Whole Codes StoredTables
CHECK_DEADLOCK FALSE
