SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
 Variant = "ok"
 MaxCalls = 2
