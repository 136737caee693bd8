SPECIFICATION Spec
CONSTANTS
  Wrong = "no"
  Models = {1, 2}
  Voxels = {1, 2}
  Colors = {1, 2}
  Steps = 5
INVARIANT Holds
CHECK_DEADLOCK FALSE
