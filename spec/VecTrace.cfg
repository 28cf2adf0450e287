INIT TraceInit
NEXT TraceNext
CONSTANTS
  Slots = {0, 1, 2, 3}
INVARIANTS CapInv DeadSlotsEmpty
CHECK_DEADLOCK TRUE
ALIAS TraceAlias
