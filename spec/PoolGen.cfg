CONSTANT Cap = 1
INIT Init
NEXT Next
INVARIANT Leaf
CHECK_DEADLOCK FALSE
