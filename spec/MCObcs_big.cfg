SPECIFICATION Spec
CONSTANTS MaxN = 3
          MaxD = 2
          MaxT = 2
INVARIANTS FilesOK Disabled PointsOK Negative
