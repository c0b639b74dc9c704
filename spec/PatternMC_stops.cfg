SPECIFICATION Spec
CONSTANTS
  Mode = "stops"
  N = 6
INVARIANTS StopKeeps DupKeeps BackAgain
