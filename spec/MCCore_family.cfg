SPECIFICATION Spec
VIEW View
CONSTANTS Mode = "family" MaxIds = 4 MaxCalls = 12
INVARIANT Inv
PROPERTIES RejectedNoTrace CounterMonotone StableObjects
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
