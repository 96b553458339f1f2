SPECIFICATION Spec
INVARIANT Predicted
CHECK_DEADLOCK FALSE
