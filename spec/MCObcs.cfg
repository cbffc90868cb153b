SPECIFICATION Spec
CONSTANTS MaxN = 2
          MaxD = 2
          MaxT = 1
INVARIANTS FilesOK Disabled PointsOK Negative
