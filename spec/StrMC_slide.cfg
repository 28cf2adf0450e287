INIT MCInit
NEXT MCNext
VIEW MCView
CONSTANTS
  Slots = {0, 1}
  Alphabet = {97, 98}
  MaxLen = 3
  MaxZ = 1
  MaxCap = 4
  Family = {"slide"}
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS CapInv NoZero ViewExact DeadSlotsEmpty
PROPERTIES Indep ViewFixed
CHECK_DEADLOCK FALSE
