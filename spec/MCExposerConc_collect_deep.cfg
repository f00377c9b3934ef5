SPECIFICATION Spec
VIEW View
INVARIANT Inv
CONSTANTS
 MaxReqs = 2
 MaxCalls = 4
 Ops = {"reg","rem","drop"}
 Emitting = FALSE
 Variant = "locked"
 Prepared = FALSE
