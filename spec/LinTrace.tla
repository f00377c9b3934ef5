------------------------------ MODULE LinTrace ------------------------------
(* Linearizability of recorded concurrent executions against Core.          *)
(*                                                                          *)
(* A trace is [calls, h, quant]: calls[c] is the event of call c (arguments *)
(* and result, as for Core!Step), h the sequence of <<"i", c>> (call) and   *)
(* <<"r", c>> (return) in the order in which they happened.                 *)
(*                                                                          *)
(* The specification keeps all explanations of the history so far: an       *)
(* explanation is a state of the world and, for every open call, whether    *)
(* (and how far) it has taken effect.  A call takes effect in one step,     *)
(* except that collecting a family reads every metric at its own instant,   *)
(* and collecting a registry every family.  A return without explanation    *)
(* is a violation (deadlock of this specification).                         *)
EXTENDS Core, Json, IOUtils

Win == INSTANCE Window

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, confs
vars == <<tr, l, confs>>
T == Traces[tr]

(* --------------------------------------------------------------------- *)
(* progress of an open call                                              *)
No      == [at |-> "no", todo |-> {}]
Done    == [at |-> "done", todo |-> {}]
Part(S) == IF S = {} THEN Done ELSE [at |-> "part", todo |-> S]

Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

(* item <<f, i, 0, 0>>: family f has to be seen as res[i] (0: as empty);  *)
(* item <<f, i, o, j>>: metric o has to be seen as res[i].m[j]            *)
Index(fam, cfs) == IF \E i \in 1..Len(cfs) : cfs[i].name = fam.name
                   THEN CHOOSE i \in 1..Len(cfs) : cfs[i].name = fam.name ELSE 0

StartCollect(st, F, cfs) ==
  IF /\ Distinct([i \in 1..Len(cfs) |-> cfs[i].name])
     /\ \A i \in 1..Len(cfs) : \E f \in F : st.fams[f].name = cfs[i].name
  THEN {Part({<<f, Index(st.fams[f], cfs), 0, 0>> : f \in F})}
  ELSE {}

SeeFamily(st, f, i, cfs) ==
  LET fam == st.fams[f] IN
  IF i = 0 THEN (IF fam.mets = {} THEN {{}} ELSE {})
  ELSE LET cf == cfs[i]
           labs == [j \in 1..Len(cf.m) |-> Elems(cf.m[j].lab)]
       IN IF /\ cf.help = fam.help /\ cf.ty = fam.ty
             /\ Len(cf.m) = Cardinality(fam.mets) /\ Len(cf.m) > 0
             /\ \A j \in 1..Len(cf.m) : Len(cf.m[j].lab) = Cardinality(labs[j])
             /\ Distinct(labs)
             /\ \A p \in fam.mets : \E j \in 1..Len(cf.m) : labs[j] = fam.const \cup p.lab
          THEN {{<<f, i, p.obj, CHOOSE j \in 1..Len(cf.m) : labs[j] = fam.const \cup p.lab>> : p \in fam.mets}}
          ELSE {}

(* the quantiles of a summary belong to the same instant as its count:    *)
(* vals[o] is the sequence of values observed until then                  *)
Quantiles(conf, o, c) ==
  LET m == conf.st.objs[o]
      vals == conf.vals[o] IN
  (T.quant /\ m.ty = "summary") =>
    Win!Reports(vals, 1, Len(vals), T.q, [i \in 1..Len(c.q) |-> c.q[i][2]])

SeeItem(conf, e, it) ==
  IF it[4] = 0 THEN SeeFamily(conf.st, it[1], it[2], e.res)
  ELSE IF /\ Shows(conf.st.objs[it[3]], e.res[it[2]].m[it[4]].c)
          /\ Quantiles(conf, it[3], e.res[it[2]].m[it[4]].c)
       THEN {{}} ELSE {}

(* --------------------------------------------------------------------- *)
(* one step of call c in an explanation                                  *)

Observes(conf, e) == e.op = "obs" /\ conf.st.objs[e.o].ty = "summary"

NewVals(conf, e) ==
  IF e.op \in {"add", "newobj"} /\ e.ex = "" /\ e.id \notin DOMAIN conf.vals THEN conf.vals @@ (e.id :> <<>>)
  ELSE IF Observes(conf, e) THEN [conf.vals EXCEPT ![e.o] = Append(@, e.r)]
  ELSE conf.vals

StepCall(conf, c) ==
  LET e == T.calls[c]
      p == conf.p[c]
      with(S) == {[conf EXCEPT !.p[c] = x] : x \in S}
  IN CASE p.at = "done" -> {}
       [] p.at = "part" ->
            UNION {with({Part((p.todo \ {it}) \cup new) : new \in SeeItem(conf, e, it)}) : it \in p.todo}
       [] e.op = "fcollect" ->
            IF ~Ok(e) THEN {} ELSE
            LET i == Index(conf.st.fams[e.f], e.res) IN
            IF i = 0 /\ Len(e.res) > 0 THEN {}
            ELSE with({Part(S) : S \in SeeFamily(conf.st, e.f, i, e.res)})
       [] e.op = "rcollect" ->
            IF ~Ok(e) THEN {} ELSE with(StartCollect(conf.st, LiveFams(conf.st, e.r), e.res))
       [] OTHER ->
            IF e.op = "ocollect" /\ ~Quantiles(conf, e.o, e.res) THEN {}
            ELSE {[st |-> s, p |-> [conf.p EXCEPT ![c] = Done], vals |-> NewVals(conf, e)] : s \in Step(conf.st, e)}

(* a call that uses an object can only take effect once the object exists *)
Possible(conf, c) ==
  LET e == T.calls[c] IN
  /\ ("o" \in DOMAIN e /\ e.o # 0) => e.o \in DOMAIN conf.st.objs
  /\ ("f" \in DOMAIN e /\ e.f # 0) => e.f \in DOMAIN conf.st.fams

Expand(S) == UNION {UNION {IF Possible(x, c) THEN StepCall(x, c) ELSE {} : c \in DOMAIN x.p} : x \in S}

(* steps are taken as late as possible: when a call returns *)
RECURSIVE Closure(_, _)
Closure(S, new) ==
  LET next == Expand(new) \ S IN
  IF next = {} THEN S ELSE Closure(S \cup next, next)

Without(f, c) == [d \in DOMAIN f \ {c} |-> f[d]]

Return(S, c) == {[x EXCEPT !.p = Without(@, c)] : x \in {y \in Closure(S, S) : y.p[c].at = "done"}}

(* --------------------------------------------------------------------- *)

Init == tr \in 1..Len(Traces) /\ l = 1 /\ confs = {[st |-> EmptyWorld, p |-> <<>>, vals |-> <<>>]}

Consume ==
  /\ l <= Len(T.h)
  /\ LET c == T.h[l][2] IN
     IF T.h[l][1] = "i"
     THEN confs' = {[x EXCEPT !.p = @ @@ (c :> No)] : x \in confs}
     ELSE /\ confs' = Return(confs, c)
          /\ (confs' # {}) = TRUE
  /\ l' = l + 1
  /\ UNCHANGED tr

(* at the end of the history every call has returned *)
Finished == l > Len(T.h) /\ (\A x \in confs : x.p = <<>>) = TRUE /\ UNCHANGED vars

Next == Consume \/ Finished
Spec == Init /\ [][Next]_vars

Inv == \A x \in confs : StructureOk(x.st)
Alias == [tr |-> tr, l |-> l]
=============================================================================
