INIT TraceInit
NEXT TraceNext
CONSTANTS
  Files = {"a", "b", "dir/c"}
CHECK_DEADLOCK TRUE
ALIAS TraceAlias
