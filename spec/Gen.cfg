INIT Init
NEXT Next
VIEW View
INVARIANT LawsHold
INVARIANT CommandsAllowed
CHECK_DEADLOCK FALSE
