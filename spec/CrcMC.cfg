CONSTANT NBits = 2040
INIT Init
NEXT Next
INVARIANTS NonZero Different Odd Order
CHECK_DEADLOCK FALSE
