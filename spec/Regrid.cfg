SPECIFICATION Spec
CONSTANTS MaxM = 4
 MaxN = 3
 Scan = "memory"
 MaxTies = 2
INVARIANTS DoneOK Decided
PROPERTY Terminates
CHECK_DEADLOCK FALSE
