SPECIFICATION Spec
INVARIANTS Independent Kept
CHECK_DEADLOCK FALSE
