INIT Init
NEXT Next
CONSTANTS
  Alphabet = {97, 32, 44}
  MaxLen = 5
  MaxZ = 3
INVARIANT Laws
CHECK_DEADLOCK FALSE
