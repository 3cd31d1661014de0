SPECIFICATION TraceSpec
INVARIANT TraceInv
POSTCONDITION TraceVerdict
CHECK_DEADLOCK FALSE
