CONSTANT K = 6
INIT Init
NEXT Next
VIEW View
ALIAS Alias
INVARIANT Holds
CHECK_DEADLOCK FALSE
