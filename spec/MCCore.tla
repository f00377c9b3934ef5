------------------------------- MODULE MCCore -------------------------------
(* Exhaustive exploration of Core within small constants.  Every explored   *)
(* transition is printed (PrintT from the action constraint) as the call    *)
(* sequence that reaches it; lib/ replays these sequences against the real  *)
(* library and has the recorded results validated by SeqTrace.              *)
EXTENDS Core, Json

CONSTANTS Mode,      \* "registry" | "family" | "hist" | "scalar"
          MaxIds,    \* objects created along one behaviour
          MaxCalls   \* length of a behaviour

VARIABLES st, hist, n
vars == <<st, hist, n>>

A == <<97>>  B == <<98>>  X == <<120>>  BadName == <<49>>   \* "a" "b" "x" "1"
V1 == <<49>>
NoLab  == <<>>
LabX   == << <<X, V1>> >>
LabA   == << <<A, V1>> >>
LabBad == << <<BadName, V1>> >>
LabMix == << <<A, V1>>, <<BadName, V1>> >>

Fresh == {n + 1}
Outcome(ids) == {<<"", i>> : i \in ids \cup Fresh} \cup {<<"invalid_argument", 0>>}

NoArgs == [v |-> Zero, b |-> <<>>, q |-> <<>>]
HistArgs == {[v |-> Zero, b |-> b, q |-> <<>>] :
             b \in {<<>>, <<OfInt(1), OfInt(3)>>, <<OfInt(2), OfInt(2)>>, <<OfInt(1), PInf>>, <<OfInt(3), OfInt(1)>>}}

RegistryCalls ==
  LET ids == DOMAIN st.fams IN
  {[op |-> "build", r |-> r, ty |-> ty, name |-> nm, help |-> <<>>, lab |-> lab, ex |-> x[1], id |-> x[2]] :
     r \in DOMAIN st.regs, ty \in {"counter", "gauge"}, nm \in {A, B}, lab \in {NoLab, LabX}, x \in Outcome(ids)}
  \cup
  {[op |-> "build", r |-> 1, ty |-> "counter", name |-> nm, help |-> <<>>, lab |-> lab, ex |-> x[1], id |-> x[2]] :
     nm \in {A, BadName}, lab \in {LabBad}, x \in Outcome(ids)}
  \cup
  {[op |-> "rremove", r |-> r, f |-> f, ex |-> "", res |-> b] :
     r \in DOMAIN st.regs, f \in {g \in ids : st.fams[g].alive}, b \in BOOLEAN}

FamilyCalls ==
  LET ids == DOMAIN st.objs IN
  {[op |-> "add", f |-> 1, lab |-> lab, a |-> NoArgs, ex |-> x[1], id |-> x[2]] :
     lab \in {NoLab, LabA, LabBad, LabMix, LabX}, x \in Outcome(ids)}
  \cup {[op |-> "fremove", f |-> 1, o |-> o, ex |-> ""] : o \in {0} \cup {p.obj : p \in st.fams[1].mets}}
  \cup {[op |-> "has", f |-> 1, lab |-> lab, ex |-> "", res |-> b] : lab \in {NoLab, LabA, LabBad}, b \in BOOLEAN}
  \cup {[op |-> "inc", o |-> p.obj, v |-> One, ex |-> ""] : p \in {q \in st.fams[1].mets : st.objs[q.obj].val = Zero}}

Small(h) == Le(Sum(h.cnt), OfInt(3))

HistCalls ==
  {[op |-> "newobj", ty |-> "histogram", a |-> a, ex |-> x[1], id |-> x[2]] :
     a \in IF n = 0 THEN HistArgs ELSE {}, x \in Outcome({})}
  \cup {[op |-> "obs", o |-> o, v |-> v, ex |-> ""] :
     o \in {x \in DOMAIN st.objs : Small(st.objs[x])}, v \in {OfInt(i) : i \in 0..4} \cup {PInf, NInf, NaN}}
  \cup {[op |-> "bulk", o |-> o, inc |-> inc, s |-> OfInt(5), ex |-> x] :
     o \in {y \in DOMAIN st.objs : Small(st.objs[y])},
     inc \in {<<>>, <<One>>, <<One, Zero, One>>, <<Zero, Zero, OfInt(2)>>, <<One, One, One, One>>},
     x \in {"", "length_error"}}
  \cup {[op |-> "reset", o |-> o, ex |-> ""] : o \in DOMAIN st.objs}

ScalarVals == {OfInt(-2), OfInt(-1), Zero, One, OfInt(3)}
ScalarCalls ==
  {[op |-> "newobj", ty |-> ty, a |-> [NoArgs EXCEPT !.v = IF ty = "gauge" THEN v ELSE Zero], ex |-> "", id |-> n + 1] :
     ty \in IF n = 0 THEN {"counter", "gauge"} ELSE {}, v \in {Zero, OfInt(2)}}
  \cup {[op |-> "inc", o |-> o, v |-> v, ex |-> ""] : o \in DOMAIN st.objs, v \in ScalarVals \cup {PInf}}
  \cup {[op |-> k, o |-> o, v |-> v, ex |-> ""] :
     k \in {"dec", "set"}, o \in {x \in DOMAIN st.objs : st.objs[x].ty = "gauge"}, v \in ScalarVals \cup {NInf}}
  \cup {[op |-> "reset", o |-> o, ex |-> ""] : o \in {x \in DOMAIN st.objs : st.objs[x].ty = "counter"}}

Calls == CASE Mode = "registry" -> RegistryCalls
           [] Mode = "family"   -> FamilyCalls
           [] Mode = "hist"     -> HistCalls
           [] Mode = "scalar"   -> ScalarCalls

Prelude ==
  CASE Mode = "registry" -> << [op |-> "newreg", r |-> 1, beh |-> "merge"],
                               [op |-> "newreg", r |-> 2, beh |-> "throw"] >>
    [] Mode = "family"   -> << [op |-> "newfam", ty |-> "counter", name |-> A, help |-> <<>>,
                                lab |-> LabX, ex |-> "", id |-> 1] >>
    [] OTHER             -> <<>>

RECURSIVE Run(_, _, _)
Run(s, h, k) == IF k > Len(h) THEN s ELSE Run(CHOOSE t \in Step(s, h[k]) : TRUE, h, k + 1)

Init == hist = Prelude /\ st = Run(EmptyWorld, Prelude, 1) /\ n = IF Mode = "family" THEN 1 ELSE 0

Creates(c, s2) == DOMAIN s2.fams # DOMAIN st.fams \/ DOMAIN s2.objs # DOMAIN st.objs

Next ==
  /\ Len(hist) < MaxCalls
  /\ \E c \in Calls : \E s2 \in Step(st, c) :
       /\ st' = s2
       /\ hist' = Append(hist, c)
       /\ n' = IF Creates(c, s2) THEN n + 1 ELSE n
       /\ n' <= MaxIds

Spec == Init /\ [][Next]_vars
View == <<st, n>>

Emit == PrintT(<<"SEQ", ToJson(hist')>>)

Inv == WorldOk(st)

(* C10: a rejected call changes nothing (by construction of Step, checked   *)
(* here over the explored graph)                                            *)
RejectedNoTrace ==
  [][LET c == hist'[Len(hist')] IN (c.op \in {"build", "add", "newobj", "newfam", "bulk"} /\ c.ex # "") => st' = st]_vars

(* C02: a counter only decreases by a reset *)
CounterMonotone ==
  [][LET c == hist'[Len(hist')] IN
     \A o \in DOMAIN st.objs :
       (st.objs[o].ty = "counter" /\ c.op # "reset" /\ IsFin(st'.objs[o].val))
         => Le(st.objs[o].val, st'.objs[o].val)]_vars

(* C09: an object keeps its label set until it is removed *)
StableObjects ==
  [][\A f \in DOMAIN st.fams : \A p \in st.fams[f].mets :
       p \in st'.fams[f].mets \/ LET c == hist'[Len(hist')] IN c.op = "fremove" /\ c.o = p.obj]_vars
=============================================================================
