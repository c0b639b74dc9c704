SPECIFICATION Spec
CONSTANTS
  Mode = "blocks"
  N = 5
INVARIANTS ColorPartition NonEmpty InOrder StitchesOnce StitchMaximal StitchThread CommandPartition StableKeeps
