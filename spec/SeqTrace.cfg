SPECIFICATION Spec
INVARIANT Inv
ALIAS Alias
CHECK_DEADLOCK TRUE
