------------------------------ MODULE MCAtomic ------------------------------
(* Counters and gauges as an algorithm: threads that read and update one      *)
(* value with atomic loads, stores and compare-exchange retry loops.  Checked:  *)
(* every call takes effect exactly once between its beginning and its end       *)
(* (Linear: abs is the value after the calls that have taken effect, each of     *)
(* which has done so exactly once; a read returns the value at that instant),    *)
(* and every call returns (Returns), although a weak compare-exchange may fail   *)
(* at any time, finitely often.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Variant,     \* "cas"; faulty: "store": load, then store; "stale": the new
                       \* value is computed only once; "giveup": a failed exchange is
                       \* not repeated; "twice": it is repeated even after success
          MaxOps, MaxSpurious

Threads == 1..3
OpsOf == {<<"inc", 1>>, <<"inc", 4>>, <<"set", 16>>, <<"get", 0>>, <<"reset", 0>>}
Programs == UNION {[1..k -> OpsOf] : k \in 0..MaxOps}
Few == {f \in [Threads -> Programs] : Len(f[1]) >= Len(f[2]) /\ Len(f[2]) >= Len(f[3]) /\ Len(f[1]) + Len(f[2]) + Len(f[3]) <= MaxOps + 1}

VARIABLES prog, val, abs, th, fails
vars == <<prog, val, abs, th, fails>>
(* th[t]: [pc, k, cur, new, lin, res]: step, call number, value read, value to   *)
(* write, how often the call has taken effect, what it returns                    *)

Idle == [pc |-> "idle", k |-> 0, cur |-> 0, new |-> 0, lin |-> 0, res |-> 0, want |-> 0]

Init == /\ prog \in Few
        /\ val = 0 /\ abs = 0 /\ fails = 0
        /\ th = [t \in Threads |-> Idle]

Op(t) == prog[t][th[t].k]

Begin(t) == /\ th[t].pc = "idle" /\ th[t].k < Len(prog[t])
            /\ th' = [th EXCEPT ![t] = [Idle EXCEPT !.pc = "load", !.k = th[t].k + 1]]
            /\ UNCHANGED <<prog, val, abs, fails>>

(* the single access of get, set and reset; the first one of inc *)
Load(t) == /\ th[t].pc = "load"
           /\ LET o == Op(t) IN
              CASE o[1] = "get" -> /\ th' = [th EXCEPT ![t].pc = "ret", ![t].res = val, ![t].want = abs, ![t].lin = @ + 1]
                                   /\ UNCHANGED <<val, abs>>
                [] o[1] \in {"set", "reset"} ->
                     /\ val' = o[2] /\ abs' = o[2]
                     /\ th' = [th EXCEPT ![t].pc = "ret", ![t].lin = @ + 1]
                [] OTHER -> /\ th' = [th EXCEPT ![t].pc = "cas", ![t].cur = val, ![t].new = val + o[2]]
                            /\ UNCHANGED <<val, abs>>
           /\ UNCHANGED <<prog, fails>>

Succeed(t) == /\ val' = th[t].new
              /\ abs' = abs + Op(t)[2]
              /\ th' = [th EXCEPT ![t].pc = IF Variant = "twice" /\ th[t].lin = 0 THEN "load" ELSE "ret", ![t].lin = @ + 1]
              /\ UNCHANGED fails

Fail(t) == /\ th' = [th EXCEPT ![t].cur = val, ![t].new = IF Variant = "stale" THEN @ ELSE val + Op(t)[2],
                               ![t].pc = IF Variant = "giveup" THEN "ret" ELSE "cas"]
           /\ UNCHANGED <<val, abs>>

Cas(t) == /\ th[t].pc = "cas"
          /\ \/ (Variant = "store" \/ val = th[t].cur) /\ Succeed(t)
             \/ Variant # "store" /\ val # th[t].cur /\ Fail(t) /\ UNCHANGED fails
             \/ Variant # "store" /\ fails < MaxSpurious /\ Fail(t) /\ fails' = fails + 1
          /\ UNCHANGED prog

Return(t) == /\ th[t].pc = "ret"
             /\ th' = [th EXCEPT ![t].pc = "idle"]
             /\ UNCHANGED <<prog, val, abs, fails>>

Step(t) == Begin(t) \/ Load(t) \/ Cas(t) \/ Return(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

Linear == /\ val = abs
          /\ \A t \in Threads : /\ th[t].pc = "ret" => th[t].lin = 1 /\ th[t].res = th[t].want
                                /\ th[t].lin <= 1
Returns == <>(\A t \in Threads : th[t].pc = "idle" /\ th[t].k = Len(prog[t]))
=============================================================================
