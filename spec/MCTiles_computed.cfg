SPECIFICATION Spec
CONSTANTS NX = 3 
 NY = 2
 Mode = "computed"
INVARIANTS Holds Whole
CHECK_DEADLOCK FALSE
