SPECIFICATION Spec
CONSTANT MaxLen = 10
INVARIANTS Truncation Layout Balanced NoEmpty Lost
CHECK_DEADLOCK FALSE
