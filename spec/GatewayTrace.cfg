SPECIFICATION Spec
ALIAS Alias
