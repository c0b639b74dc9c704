SPECIFICATION Spec
CONSTANTS
  N = 2
  K = 2
INVARIANTS Kept Nothing_new Settled
