SPECIFICATION Spec
CONSTANTS
  N = 1
  Wide = FALSE
INVARIANTS RoundTrip CutPrefix
