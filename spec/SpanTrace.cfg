INIT TraceInit
NEXT TraceNext
CONSTANTS
  Slots = {0, 1, 2}
INVARIANTS Bounded
CHECK_DEADLOCK TRUE
ALIAS TraceAlias
