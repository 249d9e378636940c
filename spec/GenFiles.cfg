INIT Init
NEXT Next
INVARIANT Script
INVARIANT Grows
INVARIANT Complete
INVARIANT Hidden
CHECK_DEADLOCK FALSE
