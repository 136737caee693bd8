SPECIFICATION Spec
CONSTANTS
  Wrong = "first"
  Models = {1, 2}
  Voxels = {1, 2}
  Colors = {1, 2}
  Steps = 3
INVARIANT Holds
CHECK_DEADLOCK FALSE
