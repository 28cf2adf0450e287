INIT TraceInit
NEXT TraceNext
CONSTANTS
  Slots = {1, 2, 3, 4, 5, 6, 7, 8}
CHECK_DEADLOCK TRUE
ALIAS TraceAlias
