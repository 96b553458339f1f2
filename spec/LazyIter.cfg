SPECIFICATION Spec
INVARIANT Yields
CHECK_DEADLOCK FALSE
