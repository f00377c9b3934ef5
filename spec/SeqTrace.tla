------------------------------ MODULE SeqTrace ------------------------------
(* Validates a batch of recorded sequential executions against Core.       *)
(* A state without successor (deadlock) before the end of a trace is a     *)
(* call whose result the specification does not allow.                     *)
EXTENDS Core, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, st
vars == <<tr, l, st>>

Events == Traces[tr].ev

Init == tr \in 1..Len(Traces) /\ l = 1 /\ st = EmptyWorld

Consume == /\ l <= Len(Events)
           /\ st' \in Step(st, Events[l])
           /\ l' = l + 1
           /\ UNCHANGED tr

Done == l > Len(Events) /\ UNCHANGED vars

Next == Consume \/ Done
Spec == Init /\ [][Next]_vars

Inv == StructureOk(st)
Alias == [tr |-> tr, l |-> l]
=============================================================================
