INIT MCInit
NEXT MCNext
CONSTANTS
  Alphabet = {48, 49, 57, 46, 45, 97, 32}
  MaxLen = 4
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS Laws
CHECK_DEADLOCK FALSE
