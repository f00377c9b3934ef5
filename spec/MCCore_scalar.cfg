SPECIFICATION Spec
VIEW View
CONSTANTS Mode = "scalar" MaxIds = 1 MaxCalls = 5
INVARIANT Inv
PROPERTIES RejectedNoTrace CounterMonotone StableObjects
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
