INIT Init
NEXT Next
INVARIANTS Native Laws
CHECK_DEADLOCK FALSE
