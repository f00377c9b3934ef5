SPECIFICATION SlowSpec
VIEW View
INVARIANT Inv
PROPERTY Unaffected
CONSTANTS
 MaxReqs = 2
 MaxCalls = 2
 Ops = {"reg","rem","slow"}
 Emitting = FALSE
 Variant = "locked"
 Prepared = FALSE
