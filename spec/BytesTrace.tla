----------------------------- MODULE BytesTrace -----------------------------
(* Validates recorded results of the stateless functions: base64 and the   *)
(* name predicates. A call with a result the specification does not allow  *)
(* is a deadlock.                                                          *)
EXTENDS Base64, Names, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>

Byte == 0..255

(* e.acc: the bytes b for which the name e.p \o <<b>> was accepted *)
AcceptedBytes(e) ==
  IF e.kind = "metric" THEN {b \in Byte : ValidMetricName(Append(e.p, b))}
  ELSE {b \in Byte : ValidLabelName(Append(e.p, b), e.ty)}

Allowed(e) ==
  CASE e.op = "enc"    -> e.ex = "" /\ e.out = Encode(e.x, Standard)
    [] e.op = "encurl" -> e.ex = "" /\ e.out = Encode(e.x, UrlSafe)
    [] e.op = "dec"    -> IF WellFormed(e.x) THEN e.ex = "" /\ e.out = Decode(e.x)
                          ELSE e.ex = "throw"
    [] e.op = "name"   -> {e.acc[i] : i \in 1..Len(e.acc)} = AcceptedBytes(e)
    [] e.op = "name1"  -> e.res = (IF e.kind = "metric" THEN ValidMetricName(e.p) ELSE ValidLabelName(e.p, e.ty))
    [] OTHER           -> FALSE

Init == tr \in 1..Len(Traces) /\ l = 1
Next == \/ l <= Len(Traces[tr].ev) /\ Allowed(Traces[tr].ev[l]) /\ l' = l + 1 /\ UNCHANGED tr
        \/ l > Len(Traces[tr].ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Alias == [tr |-> tr, l |-> l]
=============================================================================
