------------------------------ MODULE MCNames ------------------------------
(* Names defines validity declaratively; this automaton reads a name byte   *)
(* by byte. Both must agree for every string up to MaxLen over Bytes, and   *)
(* validity of labels must imply validity of the metric name.               *)
EXTENDS Names, TLC
CONSTANTS ByteSet, MaxLen
VARIABLES s, q, w
vars == <<s, q, w>>

Letter(b) == b \in Alpha
Dig(b) == b \in Digit

(* states: "start", "us" (a single leading underscore), "ok", "dead" *)
Delta(st, b, colon) ==
  CASE st = "start" -> IF b = Us THEN "us" ELSE IF Letter(b) \/ (colon /\ b = Colon) THEN "ok" ELSE "dead"
    [] st = "us"    -> IF b = Us THEN "dead" ELSE IF Letter(b) \/ Dig(b) \/ (colon /\ b = Colon) THEN "ok" ELSE "dead"
    [] st = "ok"    -> IF b = Us \/ Letter(b) \/ Dig(b) \/ (colon /\ b = Colon) THEN "ok" ELSE "dead"
    [] st = "dead"  -> "dead"

Init == s = <<>> /\ q = "start" /\ w = "start"
Next == Len(s) < MaxLen /\ \E b \in ByteSet :
          s' = Append(s, b) /\ q' = Delta(q, b, TRUE) /\ w' = Delta(w, b, FALSE)
Spec == Init /\ [][Next]_vars

Types == {"counter", "gauge", "histogram", "info", "summary"}
Agree ==
  /\ ValidMetricName(s) = (q \in {"us", "ok"})
  /\ \A ty \in Types : ValidLabelName(s, ty) = (w \in {"us", "ok"} /\ ~(ty = "histogram" /\ s = Le_))
  /\ \A ty \in Types : ValidLabelName(s, ty) => ValidMetricName(s)
=============================================================================
