SPECIFICATION Spec
VIEW View
CONSTANTS Mode = "family" MaxIds = 5 MaxCalls = 14
INVARIANT Inv
PROPERTIES RejectedNoTrace CounterMonotone StableObjects
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
