INIT Init
NEXT Next
INVARIANT Fine
CHECK_DEADLOCK FALSE
