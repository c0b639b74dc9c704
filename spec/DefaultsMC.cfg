SPECIFICATION Spec
INVARIANTS Merged Tbf Kept
CHECK_DEADLOCK FALSE
