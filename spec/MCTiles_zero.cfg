SPECIFICATION Spec
CONSTANTS NX = 3 
 NY = 2
 Mode = "zero"
INVARIANTS Holds
CHECK_DEADLOCK FALSE
