INIT TraceInit
NEXT TraceNext
CHECK_DEADLOCK TRUE
ALIAS TraceAlias
