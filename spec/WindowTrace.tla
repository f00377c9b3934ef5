---------------------------- MODULE WindowTrace ----------------------------
(* Validates recorded executions of summaries under a virtual clock.       *)
(* A trace is [A, k, q, obs, ev]: window length and times in the trace's   *)
(* unit, quantiles <<q, e>> in units of 1/D, all observed values (as ranks)*)
(* in order and the events                                                 *)
(*   [op |-> "obs", t, from, to]   a burst of observations at time t       *)
(*   [op |-> "col", t, res]        a collection (-1 for NaN)               *)
EXTENDS Window, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

(* may:  index of the first observation that may still be in the window,   *)
(* must: of the first that must be; n: observations made so far.           *)
(* Bursts are kept until they may no longer be reported.                   *)
VARIABLES tr, l, bursts, n
vars == <<tr, l, bursts, n>>
T == Traces[tr]
Ev == T.ev

Init == tr \in 1..Len(Traces) /\ l = 1 /\ bursts = <<>> /\ n = 0

Observe == /\ Ev[l].op = "obs"
           /\ Ev[l].from = n + 1
           /\ n' = Ev[l].to
           /\ bursts' = Append(bursts, Ev[l])

Young(t) == SelectSeq(bursts, LAMBDA b : May(t - b.t, T.A))

(* possible windows: they begin at a burst boundary *)
Starts(t) == LET y == Young(t) IN
  (IF \E i \in 1..Len(y) : Must(t - y[i].t, T.A, T.k) THEN {} ELSE {n + 1})
  \cup {y[j].from : j \in {j \in 1..Len(y) : \A i \in 1..(j - 1) : ~Must(t - y[i].t, T.A, T.k)}}

Collect == /\ Ev[l].op = "col"
           /\ (\E a \in Starts(Ev[l].t) : Reports(T.obs, a, n, T.q, Ev[l].res)) = TRUE
           /\ bursts' = Young(Ev[l].t)
           /\ UNCHANGED n

Next == \/ l <= Len(Ev) /\ (Observe \/ Collect) /\ l' = l + 1 /\ UNCHANGED tr
        \/ l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Alias == [tr |-> tr, l |-> l]
=============================================================================
