SPECIFICATION Spec
CONSTANT Shapes <- MCShapes
INVARIANTS Filled Complete CornersKept CornerIndex
PROPERTY Terminates
CHECK_DEADLOCK FALSE
