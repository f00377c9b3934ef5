--------------------------- MODULE ListeningTrace ---------------------------
(* Validates recorded executions of several exposers against Listening. *)
EXTENDS Listening, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, sts
vars == <<tr, l, sts>>
Events == Traces[tr].ev

Init == tr \in 1..Len(Traces) /\ l = 1 /\ sts = {Nothing}
Consume == /\ l <= Len(Events)
           /\ sts' = UNION {StepX(s, Events[l]) : s \in sts}
           /\ (sts' # {}) = TRUE
           /\ l' = l + 1
           /\ UNCHANGED tr
Done == l > Len(Events) /\ UNCHANGED vars
Next == Consume \/ Done
Spec == Init /\ [][Next]_vars
Alias == [tr |-> tr, l |-> l]
=============================================================================
