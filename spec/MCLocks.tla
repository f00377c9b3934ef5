------------------------------- MODULE MCLocks -------------------------------
(* The locks of registry, families and metrics as an algorithm.  Calls take     *)
(* them one after the other, do their work and release them in reverse order;    *)
(* a call may throw at any point, which releases what it holds.  Checked: no      *)
(* deadlock, nothing held by an idle thread, changes of a set of families or      *)
(* metrics happen under its lock only (Alone), every call returns (Returns).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Variant,     \* "ok"; faulty: "inverted": an update of a metric then takes its
                       \* family's lock; "back": collecting a family takes the registry's
                       \* lock again; "held": a call that throws keeps a lock;
                       \* "open": removal of a metric does not lock
          MaxCalls

Threads == 1..3
(* locks: 0 registry, 1 and 2 families, 3 and 4 metrics (one of each family)     *)
Locks == 0..4
MetricOf(f) == f + 2

CollectF(f) == (IF Variant = "back" THEN <<<<"+", f>>, <<"+", 0>>, <<"r", f>>, <<"-", 0>>>> ELSE <<<<"+", f>>, <<"r", f>>>>)
               \o <<<<"+", MetricOf(f)>>, <<"r", MetricOf(f)>>, <<"-", MetricOf(f)>>, <<"-", f>>>>

Path(c) ==
  CASE c[1] = "rcollect" -> <<<<"+", 0>>>> \o CollectF(1) \o CollectF(2) \o <<<<"-", 0>>>>
    [] c[1] = "fcollect" -> CollectF(c[2])
    [] c[1] = "build"    -> <<<<"+", 0>>, <<"w", 0>>, <<"-", 0>>>>
    [] c[1] = "rremove"  -> <<<<"+", 0>>, <<"w", 0>>, <<"-", 0>>>>
    [] c[1] = "add"      -> <<<<"+", c[2]>>, <<"w", c[2]>>, <<"-", c[2]>>>>
    [] c[1] = "fremove"  -> IF Variant = "open" THEN <<<<"w", c[2]>>>> ELSE <<<<"+", c[2]>>, <<"w", c[2]>>, <<"-", c[2]>>>>
    [] c[1] = "has"      -> <<<<"+", c[2]>>, <<"r", c[2]>>, <<"-", c[2]>>>>
    [] c[1] = "obs"      -> LET m == MetricOf(c[2]) IN
                            IF Variant = "inverted" THEN <<<<"+", m>>, <<"w", m>>, <<"+", c[2]>>, <<"-", c[2]>>, <<"-", m>>>>
                            ELSE <<<<"+", m>>, <<"w", m>>, <<"-", m>>>>
Calls == {<<"rcollect", 0>>, <<"build", 0>>, <<"rremove", 0>>}
         \cup {<<k, f>> : k \in {"fcollect", "add", "fremove", "has", "obs"}, f \in 1..2}

VARIABLES owner, th    \* lock -> thread or 0; thread -> [todo: rest of the path,
                       \* n: calls made, using: what is being accessed]
vars == <<owner, th>>

Init == /\ owner = [l \in Locks |-> 0]
        /\ th = [t \in Threads |-> [todo |-> <<>>, n |-> 0, using |-> <<>>]]

Begin(t) == /\ th[t].todo = <<>> /\ th[t].using = <<>> /\ th[t].n < MaxCalls
            /\ \E c \in Calls : th' = [th EXCEPT ![t] = [@ EXCEPT !.todo = Path(c), !.n = @ + 1]]
            /\ UNCHANGED owner

Go(t) == /\ th[t].todo # <<>>
         /\ LET s == Head(th[t].todo) IN
            CASE s[1] = "+" -> /\ owner[s[2]] = 0
                               /\ owner' = [owner EXCEPT ![s[2]] = t]
                               /\ th' = [th EXCEPT ![t].todo = Tail(@), ![t].using = <<>>]
              [] s[1] = "-" -> /\ owner' = [owner EXCEPT ![s[2]] = 0]
                               /\ th' = [th EXCEPT ![t].todo = Tail(@), ![t].using = <<>>]
              [] OTHER      -> /\ th' = [th EXCEPT ![t].todo = Tail(@), ![t].using = <<s>>]
                               /\ UNCHANGED owner


Rest(t) == /\ th[t].todo = <<>> /\ th[t].using # <<>>
           /\ th' = [th EXCEPT ![t].using = <<>>]
           /\ UNCHANGED owner

Throw(t) == /\ th[t].todo # <<>> /\ th[t].using # <<>>
            /\ th' = [th EXCEPT ![t].todo = <<>>, ![t].using = <<>>]
            /\ owner' = IF Variant = "held" THEN owner ELSE [l \in Locks |-> IF owner[l] = t THEN 0 ELSE owner[l]]


Done == /\ \A t \in Threads : th[t].todo = <<>> /\ th[t].using = <<>> /\ th[t].n = MaxCalls
        /\ UNCHANGED vars
Next == Done \/ \E t \in Threads : Begin(t) \/ Go(t) \/ Rest(t) \/ Throw(t)
Fair == \A t \in Threads : SF_vars(Go(t)) /\ WF_vars(Rest(t)) /\ WF_vars(Begin(t))
Spec == Init /\ [][Next]_vars /\ Fair

Idle(t) == th[t].todo = <<>> /\ th[t].using = <<>>
Free == \A t \in Threads : Idle(t) => \A l \in Locks : owner[l] # t
Conflict(a, b) == a[2] = b[2] /\ "w" \in {a[1], b[1]}
Alone == \A t, u \in Threads : (t # u /\ th[t].using # <<>> /\ th[u].using # <<>>) => ~Conflict(th[t].using[1], th[u].using[1])
Inv == Free /\ Alone
Returns == <>(\A t \in Threads : Idle(t) /\ th[t].n = MaxCalls)
=============================================================================
