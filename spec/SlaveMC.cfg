CONSTANTS K = 3
MaxSeg = 16
Budget = 4
Mut = "none"
Inits = FALSE
Sync = FALSE
RxSet = {"wR", "badcrc", "foreign", "short"}
AppSet = {}
INIT Init
NEXT Next
VIEW View
ALIAS Alias
CONSTRAINT Bound
INVARIANTS NoBad Agree Structure ReadOnly
CHECK_DEADLOCK FALSE
