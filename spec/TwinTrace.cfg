INIT Init
NEXT Next
VIEW View
INVARIANT Same
CHECK_DEADLOCK FALSE
