SPECIFICATION Spec
CONSTANT Span = 3
INVARIANTS Right Which StripE StripN
CHECK_DEADLOCK FALSE
