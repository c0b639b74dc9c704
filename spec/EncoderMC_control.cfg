SPECIFICATION Spec
CONSTANTS
  Mode = "control"
  N = 4
INVARIANTS KeepsStitches RunsStartInRange LimitsHold ThreadPerBlock ExplicitChangesKept NoTrailingBreak LowLevelOnly OneEnd TrimsMatter SequinDiscipline LocksOnlyWhenAsked LocksAreFour
PROPERTIES MatrixOnlyForward NeedleFixed
