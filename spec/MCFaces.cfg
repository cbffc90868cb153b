SPECIFICATION Spec
INVARIANTS CoverLine CoverWide CoverTall
CHECK_DEADLOCK FALSE
