SPECIFICATION Spec
INVARIANTS Unit Periodic Antipode Poles Quarter OverPole Triangles Congruent
CHECK_DEADLOCK FALSE
