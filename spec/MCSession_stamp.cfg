SPECIFICATION Spec
CONSTANTS
 Paths = {p1,p2}
 V = 2
 MaxObj = 3
 MaxDepth = 5
 Cache = "stamp"
 Alias = "fresh"
INVARIANTS StandAlone Functional
CHECK_DEADLOCK FALSE
