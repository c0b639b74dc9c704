SPECIFICATION Spec
CONSTANTS
  Mode = "matrix"
  N = 4
INVARIANTS KeepsStitches RunsStartInRange LimitsHold ThreadPerBlock ExplicitChangesKept NoTrailingBreak LowLevelOnly OneEnd TrimsMatter SequinDiscipline LocksOnlyWhenAsked LocksAreFour
PROPERTIES MatrixOnlyForward NeedleFixed
