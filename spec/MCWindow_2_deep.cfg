SPECIFICATION Spec
CONSTANTS
  K = 2
  Interval = 2
  MaxTime = 40
  MaxObs = 4
  MaxEvents = 8
  Steps = {1, 2, 3, 5, 9}
INVARIANTS WindowOk Suffix
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
