SPECIFICATION Spec
CONSTANT Early = TRUE
INVARIANTS FailedClean DoneRight FailsRight
PROPERTY Halts
