-------------------------------- MODULE Race --------------------------------
(* Data races in a recorded execution: two conflicting accesses to the same  *)
(* memory by different threads, at least one of them not atomic, that are    *)
(* not ordered by happens-before.  Happens-before is program order and       *)
(*   unlock -> later lock of the same mutex (write locks of a shared mutex    *)
(*            also wait for readers),                                        *)
(*   release store -> acquire load that reads it or its release sequence,     *)
(* kept as vector clocks.  Threads start after the setup and end before the   *)
(* final calls, whose accesses are not part of the trace.  Starting a thread   *)
(* and waiting for its end appear as release and acquire of an atomic without   *)
(* elements.                                                                     *)
(*                                                                           *)
(* Events: <<t, "L"|"U", lock, 0>>   lock, unlock                            *)
(*         <<t, "S"|"V", lock, 0>>   shared lock, shared unlock              *)
(*         <<t, "A", var, op, acq, rel, elems>>   atomic (0 load, 1 store,    *)
(*                                   2 read-modify-write)                    *)
(*         <<t, "R"|"W"|"F", 0, elems>>   read, write, release of memory     *)
(*         <<t, "X", 0, 0>>          access to released memory               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

Threads == 1..8
Zero == <<0, 0, 0, 0, 0, 0, 0, 0>>
Hi(x, y) == IF x < y THEN y ELSE x
Join(a, b) == <<Hi(a[1], b[1]), Hi(a[2], b[2]), Hi(a[3], b[3]), Hi(a[4], b[4]),
                Hi(a[5], b[5]), Hi(a[6], b[6]), Hi(a[7], b[7]), Hi(a[8], b[8])>>
Leq(a, b) == \A t \in Threads : a[t] <= b[t]

Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE Zero
Put(f, k, v) == (k :> v) @@ f

(* c: clock of each thread; m: clock released by each mutex and atomic;      *)
(* s: by shared unlocks; last plain/atomic write/read time of each thread    *)
(* per element: w, r (plain), aw, ar (atomic)                                *)
Start == [c |-> [t \in Threads |-> [Zero EXCEPT ![t] = 1]], m |-> <<>>, s |-> <<>>,
          w |-> <<>>, r |-> <<>>, aw |-> <<>>, ar |-> <<>>, bad |-> 0, n |-> 0]

Tick(x, t) == [x EXCEPT !.c[t][t] = @ + 1]
Elements(e) == IF e[2] = "A" THEN e[7] ELSE IF e[2] \in {"R", "W", "F"} THEN e[4] ELSE <<>>

Ordered(x, t, f, k) == Leq(Get(f, k), x.c[t])

(* accesses that conflict with e must have happened before *)
Conflict(x, e) ==
  LET t == e[1]
      atomic == e[2] = "A"
      write == e[2] \in {"W", "F"} \/ (atomic /\ e[4] # 0)
  IN \E i \in 1..Len(Elements(e)) : LET k == Elements(e)[i] IN
       \/ ~Ordered(x, t, x.w, k)
       \/ ~atomic /\ ~Ordered(x, t, x.aw, k)
       \/ write /\ ~Ordered(x, t, x.r, k)
       \/ write /\ ~atomic /\ ~Ordered(x, t, x.ar, k)

Mark(f, es, t, time) == FoldLeft(LAMBDA g, k : Put(g, k, [Get(g, k) EXCEPT ![t] = time]), f, es)

(* remembers the access e, made at time now of its thread                    *)
Note(x, e, now) ==
  LET t == e[1]
      es == Elements(e)
  IN CASE e[2] = "R" -> [x EXCEPT !.r = Mark(@, es, t, now)]
       [] e[2] \in {"W", "F"} -> [x EXCEPT !.w = Mark(@, es, t, now)]
       [] e[2] = "A" /\ e[4] = 0 -> [x EXCEPT !.ar = Mark(@, es, t, now)]
       [] e[2] = "A" -> [x EXCEPT !.aw = Mark(@, es, t, now)]
       [] OTHER -> x

Sync(x, e) ==
  LET t == e[1]
      v == e[3]
      C == x.c[t]
      joined(c) == [x EXCEPT !.c[t] = Join(@, c)]
  IN CASE e[2] = "L" -> joined(Join(Get(x.m, v), Get(x.s, v)))
       [] e[2] = "S" -> joined(Get(x.m, v))
       [] e[2] = "U" -> Tick([x EXCEPT !.m = Put(@, v, C)], t)
       [] e[2] = "V" -> Tick([x EXCEPT !.s = Put(@, v, Join(Get(@, v), C))], t)
       [] e[2] = "A" ->
            LET y == IF e[5] = 1 /\ e[4] # 1 THEN joined(Get(x.m, v)) ELSE x
                D == y.c[t]
            IN (CASE e[4] = 0 -> y
                 [] e[4] = 1 -> Tick([y EXCEPT !.m = Put(@, v, IF e[6] = 1 THEN D ELSE Zero)], t)
                 [] e[4] = 2 -> Tick([y EXCEPT !.m = Put(@, v, IF e[6] = 1 THEN Join(Get(@, v), D) ELSE Get(@, v))], t))
       [] OTHER -> x

After(x, e) ==
  IF x.bad # 0 THEN x
  ELSE LET y == Sync(x, e)
           n == x.n + 1
       IN IF e[2] = "X" \/ Conflict(y, e) THEN [x EXCEPT !.bad = n]
          ELSE [Note(y, e, x.c[e[1]][e[1]]) EXCEPT !.n = n]    \* a release covers its own access

FirstRace(log) == FoldLeft(After, Start, log).bad

VARIABLES tr, l
vars == <<tr, l>>
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l = 0 /\ l' = FirstRace(Traces[tr].log) /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
NoRace == l = 0
=============================================================================
