SPECIFICATION Spec
INVARIANT Linear
PROPERTY Returns
CHECK_DEADLOCK FALSE
CONSTANTS
 Variant = "cas"
 MaxOps = 2
 MaxSpurious = 1
