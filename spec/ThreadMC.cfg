SPECIFICATION Spec
CONSTANTS
  N = 2
INVARIANTS UniqueOk SerialOk Swapped
