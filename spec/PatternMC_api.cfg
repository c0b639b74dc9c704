SPECIFICATION Spec
CONSTANTS
  Mode = "api"
  N = 3
INVARIANTS BoundsHold CenterHolds
PROPERTIES CursorIsLastAdded InsertShiftsOnlyLater PositionlessKeepCursor
