INIT MCInit
NEXT MCNext
VIEW MCView
CONSTANTS
  Slots = {0, 1}
  Alphabet = {97, 98}
  MaxLen = 3
  MaxZ = 2
  MaxCap = 4
  Family = {"edit"}
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS CapInv NoZero ViewExact DeadSlotsEmpty
PROPERTIES Indep ViewFixed
CHECK_DEADLOCK FALSE
