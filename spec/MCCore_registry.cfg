SPECIFICATION Spec
VIEW View
CONSTANTS Mode = "registry" MaxIds = 2 MaxCalls = 7
INVARIANT Inv
PROPERTIES RejectedNoTrace CounterMonotone StableObjects
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
