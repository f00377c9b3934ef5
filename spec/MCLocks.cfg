SPECIFICATION Spec
INVARIANT Inv
PROPERTY Returns
CONSTANTS
 Variant = "ok"
 MaxCalls = 1
