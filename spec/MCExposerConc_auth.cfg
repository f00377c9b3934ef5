SPECIFICATION Spec
VIEW View
INVARIANT Inv
CONSTANTS
 MaxReqs = 2
 MaxCalls = 2
 Ops = {"reg","auth","destroy"}
 Emitting = FALSE
 Variant = "locked"
 Prepared = FALSE
