INIT MCInit
NEXT MCNext
VIEW MCView
CONSTANTS
  Slots = {0, 1}
  Alphabet = {97, 32, 44}
  MaxLen = 4
  MaxZ = 2
  MaxCap = 4
  Family = {"query", "search"}
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS CapInv NoZero ViewExact DeadSlotsEmpty
PROPERTIES Indep ViewFixed
CHECK_DEADLOCK FALSE
