SPECIFICATION Spec
CONSTANT MaxLen = 8
INVARIANTS Truncation Layout Balanced NoEmpty Lost
CHECK_DEADLOCK FALSE
