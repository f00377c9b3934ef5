SPECIFICATION Spec
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Mode = "collect"
 MaxCalls = 6
