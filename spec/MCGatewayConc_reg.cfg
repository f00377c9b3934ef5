SPECIFICATION Spec
VIEW View
INVARIANT Inv
CONSTANTS
 MaxOps = 1
 MaxCalls = 2
 Ops = {"reg","push","async","drop","header","del"}
 Outs = {"ok","fail"}
 Cols = {1,2}
 Emitting = FALSE
 Prepared = FALSE
 Variant = "ok"
