SPECIFICATION Spec
CONSTANT MaxDepth = 94
INVARIANT Inv
CHECK_DEADLOCK FALSE
