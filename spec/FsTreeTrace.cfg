INIT TraceInit
NEXT TraceNext
CONSTANTS
  Dots = {".h", "..x", "...", ".a.b"}
INVARIANTS TreeOK
CHECK_DEADLOCK TRUE
ALIAS TraceAlias
