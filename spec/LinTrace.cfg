SPECIFICATION Spec
INVARIANT Inv
ALIAS Alias
