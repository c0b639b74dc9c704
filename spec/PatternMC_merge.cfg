SPECIFICATION Spec
CONSTANTS
  Mode = "merge"
  N = 3
INVARIANTS MergeSews MergeEmpty
