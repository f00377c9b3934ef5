------------------------------ MODULE MCWindow ------------------------------
(* The design of the sliding window: k buckets, all of them receive every  *)
(* observation, one of them (the oldest) answers and is reset whenever the *)
(* next rotation interval begins. Rotations only happen when the summary   *)
(* is used. Invariant: what the answering bucket holds agrees with Must and*)
(* May at all times. Every behaviour is emitted as a call sequence.        *)
EXTENDS Window, TLC, Json
CONSTANTS K, Interval, MaxTime, MaxObs, MaxEvents, Steps

VARIABLES now, lastrot, cur, buckets, times, hist
vars == <<now, lastrot, cur, buckets, times, hist>>
A == K * Interval

Init == /\ now = 0 /\ lastrot = 0 /\ cur = 1
        /\ buckets = [i \in 1..K |-> {}] /\ times = <<>> /\ hist = <<>>

RECURSIVE Rotated(_, _, _)
Rotated(bs, c, rot) ==
  IF now - rot > Interval
  THEN Rotated([bs EXCEPT ![c] = {}], IF c = K THEN 1 ELSE c + 1, rot + Interval)
  ELSE [b |-> bs, c |-> c, rot |-> rot]
R == IF now - lastrot > K * Interval
     THEN [b |-> [i \in 1..K |-> {}], c |-> cur, rot |-> now]        \* all outdated
     ELSE Rotated(buckets, cur, lastrot)

LastOp == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op

Observe ==
  /\ Len(times) < MaxObs
  /\ times' = Append(times, now)
  /\ LET r == R IN /\ buckets' = [i \in 1..K |-> r.b[i] \cup {Len(times) + 1}]
                   /\ cur' = r.c /\ lastrot' = r.rot
  /\ hist' = Append(hist, [op |-> "obs"])
  /\ UNCHANGED now

Collect ==
  /\ LET r == R IN buckets' = r.b /\ cur' = r.c /\ lastrot' = r.rot
  /\ hist' = Append(hist, [op |-> "col"])
  /\ LastOp # "col"
  /\ UNCHANGED <<now, times>>

Advance == \E d \in Steps :
  /\ now + d <= MaxTime
  /\ now' = now + d
  /\ hist' = Append(hist, [op |-> "adv", d |-> d])
  /\ UNCHANGED <<lastrot, cur, buckets, times>>
  /\ LastOp # "adv"

Next == Len(hist) < MaxEvents /\ (Observe \/ Collect \/ Advance)
Spec == Init /\ [][Next]_vars

Emit == IF Len(hist') = MaxEvents THEN PrintT(<<"SEQ", ToJson(hist')>>) ELSE TRUE

(* what a collection now would answer from *)
Held == R.b[R.c]
WindowOk ==
  LET h == Held IN
  \A i \in 1..Len(times) :
    /\ Must(now - times[i], A, K) => i \in h
    /\ i \in h => May(now - times[i], A)
(* the window always is a suffix of the observations *)
Suffix == \A i \in Held, j \in 1..Len(times) : j > i => j \in Held
=============================================================================
