SPECIFICATION Spec
CONSTANT Early = FALSE
INVARIANTS FailedClean DoneRight FailsRight
PROPERTY Halts
