INIT TraceInit
NEXT TraceNext
INVARIANTS LawsHold
CHECK_DEADLOCK TRUE
ALIAS TraceAlias
