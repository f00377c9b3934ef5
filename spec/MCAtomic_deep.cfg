SPECIFICATION Spec
INVARIANT Linear
PROPERTY Returns
CHECK_DEADLOCK FALSE
CONSTANTS
 Variant = "cas"
 MaxOps = 3
 MaxSpurious = 2
