SPECIFICATION Spec
VIEW View
INVARIANT Inv
CONSTANTS
 MaxOps = 2
 MaxCalls = 1
 Ops = {"push","pushadd","del","delinst","async","drop","header"}
 Outs = {"ok","fail","fault"}
 Cols = {1,2}
 Emitting = FALSE
 Prepared = TRUE
 Variant = "ok"
