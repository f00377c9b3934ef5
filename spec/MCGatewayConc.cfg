SPECIFICATION Spec
VIEW View
INVARIANT Inv
CONSTANTS
 MaxOps = 2
 MaxCalls = 1
 Ops = {"push","async","drop","header","del"}
 Outs = {"ok","fail"}
 Cols = {1,2}
 Emitting = FALSE
 Prepared = TRUE
 Variant = "ok"
