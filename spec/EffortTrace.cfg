SPECIFICATION TraceSpec
INVARIANT TraceInv
POSTCONDITION TraceVerdict
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxPer = 16
 Slack = 20
 ScanLimit = 7
