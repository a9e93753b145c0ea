CONSTANTS K = 4
N = 2
T = 3
Rr = 1
MaxSeg = 12
Budget = 4
Mut = "none"
Inits = FALSE
Sync = FALSE
Nest = FALSE
RxSet = {"good", "badcrc", "foreign"}
ReqSet = {"A", "X"}
INIT Init
NEXT Next
VIEW View
ALIAS Alias
CONSTRAINT Bound
INVARIANTS NoBad Structure Agree
CHECK_DEADLOCK FALSE
