SPECIFICATION Spec
CONSTANT Grids <- MCGrids
INVARIANTS Right Once Whole Apart Plain
CHECK_DEADLOCK FALSE
