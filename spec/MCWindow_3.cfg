SPECIFICATION Spec
CONSTANTS
  K = 3
  Interval = 2
  MaxTime = 24
  MaxObs = 4
  MaxEvents = 6
  Steps = {1, 2, 3, 5, 9}
INVARIANTS WindowOk Suffix
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
