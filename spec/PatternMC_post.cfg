SPECIFICATION Spec
CONSTANTS
  Mode = "post"
  N = 4
INVARIANTS TrimKeeps JumpTrimKeeps MergeKeeps FrameKeeps
