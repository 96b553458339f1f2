SPECIFICATION Spec
INVARIANT One_
INVARIANT Pair
INVARIANT Triple
CHECK_DEADLOCK FALSE
