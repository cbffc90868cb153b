SPECIFICATION Spec
CONSTANTS MaxM = 4
 MaxN = 3
 Scan = "view"
 MaxTies = 2
INVARIANTS DoneOK Decided
PROPERTY Terminates
CHECK_DEADLOCK FALSE
