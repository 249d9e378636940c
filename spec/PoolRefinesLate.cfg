CONSTANTS Cap = 2 Events = {1, 2, 3} Stoppers = {1} DL = TRUE
INIT Init
NEXT Next
INVARIANTS Allowed Ends
CHECK_DEADLOCK FALSE
