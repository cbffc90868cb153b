SPECIFICATION Spec
CONSTANTS Shapes <- MCShapes
 Vals = {1,2,3}
INVARIANTS Right Running Shift
CHECK_DEADLOCK FALSE
