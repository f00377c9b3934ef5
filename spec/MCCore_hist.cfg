SPECIFICATION Spec
VIEW View
CONSTANTS Mode = "hist" MaxIds = 1 MaxCalls = 12
INVARIANT Inv
PROPERTIES RejectedNoTrace CounterMonotone StableObjects
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
