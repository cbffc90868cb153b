SPECIFICATION Spec
CONSTANT MaxN = 4
INVARIANTS Turns OneRotation Handed Corners
