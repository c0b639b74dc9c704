SPECIFICATION Spec
CONSTANTS
  N = 3
INVARIANTS NearestDrawn OneEach Joined BothWays Inside
PROPERTY Arrives
