INIT TraceInit
NEXT TraceNext
INVARIANT Conforms
VIEW View
CHECK_DEADLOCK FALSE
