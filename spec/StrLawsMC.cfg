INIT Init
NEXT Next
CONSTANTS
  Alphabet = {97, 32}
  MaxLen = 5
  MaxZ = 2
INVARIANT Laws
CHECK_DEADLOCK FALSE
