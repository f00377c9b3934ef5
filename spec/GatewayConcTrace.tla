------------------------------ MODULE GatewayConcTrace ------------------------------
(* Validates logs of concurrent executions of a gateway client against GatewayConc. *)
EXTENDS GatewayConc, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, sts
vars == <<tr, l, sts>>
Events == Traces[tr].ev

Init == tr \in 1..Len(Traces) /\ l = 1 /\ sts = {Fresh(Traces[tr].cfg)}
Consume == /\ l <= Len(Events)
           /\ sts' = UNION {Step(s, Events[l]) : s \in sts}
           /\ (sts' # {}) = TRUE
           /\ l' = l + 1
           /\ UNCHANGED tr
Done == l > Len(Events) /\ UNCHANGED vars
Next == Consume \/ Done
Spec == Init /\ [][Next]_vars
Alias == [tr |-> tr, l |-> l]
=============================================================================
