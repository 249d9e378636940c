INIT Init
NEXT Next
INVARIANT Script
INVARIANT InForce
CHECK_DEADLOCK FALSE
