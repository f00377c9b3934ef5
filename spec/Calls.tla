------------------------------- MODULE Calls -------------------------------
(* Progress of concurrent calls: every call that began ends, without any    *)
(* lock left held by its thread, and no call waits for a lock forever.      *)
(* A trace is [log, stuck]: the calls (i), returns (r), locks and unlocks    *)
(* in the order in which they happened; stuck if the execution could not be  *)
(* continued (all remaining threads wait) or went on forever.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, open, held, shared
vars == <<tr, l, open, held, shared>>
T == Traces[tr]

Init == tr \in 1..Len(Traces) /\ l = 1 /\ open = {} /\ held = {} /\ shared = {}

(* holds of thread t *)
Mine(S, t) == {x \in S : x[1] = t}

Event ==
  LET e == T.log[l] t == e[1] x == <<e[1], e[3]>> IN
  CASE e[2] = "i" -> Mine(open, t) = {} /\ open' = open \cup {x} /\ UNCHANGED <<held, shared>>
    [] e[2] = "r" -> /\ x \in open /\ open' = open \ {x}
                     /\ Mine(held, t) = {} /\ Mine(shared, t) = {}
                     /\ UNCHANGED <<held, shared>>
    [] e[2] = "L" -> /\ {y \in held \cup shared : y[2] = e[3] /\ y[1] # t} = {}
                     /\ held' = held \cup {x} /\ UNCHANGED <<open, shared>>
    [] e[2] = "U" -> x \in held /\ held' = held \ {x} /\ UNCHANGED <<open, shared>>
    [] e[2] = "S" -> /\ {y \in held : y[2] = e[3] /\ y[1] # t} = {}
                     /\ shared' = shared \cup {x} /\ UNCHANGED <<open, held>>
    [] e[2] = "V" -> x \in shared /\ shared' = shared \ {x} /\ UNCHANGED <<open, held>>

Next == \/ l <= Len(T.log) /\ Event /\ l' = l + 1 /\ UNCHANGED tr
        \/ l > Len(T.log) /\ (open = {} /\ held = {} /\ shared = {} /\ ~T.stuck) = TRUE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Alias == [tr |-> tr, l |-> l]
=============================================================================
