SPECIFICATION Spec
CONSTANT Grids <- BigGrids
INVARIANTS Right Once Whole Apart Plain
CHECK_DEADLOCK FALSE
