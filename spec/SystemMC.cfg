CONSTANTS K = 4
N = 1
T = 2
Rr = 1
Timely = TRUE
MaxReq = 2
MaxLoss = 0
MaxApp = 1
ReqSet = {"rd", "wr"}
Faults = {"none"}
Mut = "none"
INIT Init
NEXT Next
VIEW View
ALIAS Alias
INVARIANTS NoBad Agree HalfDuplex
CHECK_DEADLOCK FALSE
