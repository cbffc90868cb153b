SPECIFICATION Spec
CONSTANT MaxN = 5
INVARIANTS PathOK BoxOK Disjoint Tiling UndefOK LineCover
CHECK_DEADLOCK FALSE
