INIT TraceInit
NEXT TraceNext
INVARIANTS CountInv
CHECK_DEADLOCK TRUE
ALIAS TraceAlias
