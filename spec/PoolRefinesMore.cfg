CONSTANTS Cap = 3 Events = {1, 2, 3, 4} Stoppers = {1} DL = FALSE
INIT Init
NEXT Next
INVARIANTS Allowed Ends
CHECK_DEADLOCK FALSE
