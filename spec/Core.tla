-------------------------------- MODULE Core --------------------------------
(* The sequential meaning of prometheus-cpp's core: counters, gauges,      *)
(* histograms, summaries (totals only, see Window.tla for quantiles),      *)
(* families and registries.                                                *)
(*                                                                         *)
(* The single source of truth is Step(st, e): the set of states in which   *)
(* the world may be after the call e, which carries its arguments and the  *)
(* result that was returned.  The empty set means that the call must not   *)
(* return this result in state st.  Step is used by                        *)
(*   MCCore.tla    exhaustive exploration, generation of call sequences    *)
(*   SeqTrace.tla  validation of recorded sequential executions            *)
(*   LinTrace.tla  linearizability of recorded concurrent executions       *)
EXTENDS Num, Names, FiniteSets, TLC

Elems(s) == {s[i] : i \in 1..Len(s)}

(* --------------------------------------------------------------------- *)
(* metrics                                                               *)

StrictlySorted(b) == \A i \in 1..(Len(b) - 1) : Lt(b[i], b[i + 1])

CtorOk(ty, a) == ty = "histogram" => StrictlySorted(a.b)

NewMetric(ty, a) ==
  CASE ty = "counter"   -> [ty |-> ty, val |-> Zero]
    [] ty = "gauge"     -> [ty |-> ty, val |-> a.v]
    [] ty = "info"      -> [ty |-> ty]
    [] ty = "histogram" -> [ty |-> ty, b |-> a.b, sum |-> Zero,
                            cnt |-> [i \in 1..(Len(a.b) + 1) |-> Zero]]
    [] ty = "summary"   -> [ty |-> ty, sum |-> Zero, cnt |-> Zero, q |-> a.q]

(* index of the bucket that counts v: the first boundary v <= b[i],       *)
(* else the overflow bucket                                              *)
BucketOf(b, v) ==
  IF \E i \in 1..Len(b) : Le(v, b[i])
  THEN CHOOSE i \in 1..Len(b) : Le(v, b[i]) /\ \A j \in 1..(i - 1) : ~Le(v, b[j])
  ELSE Len(b) + 1

HistObserve(h, v) ==
  [h EXCEPT !.sum = Add(@, v), !.cnt[BucketOf(h.b, v)] = Add(@, One)]

HistBulk(h, inc, s) ==
  [h EXCEPT !.sum = Add(@, s), !.cnt = [i \in DOMAIN @ |-> Add(@[i], inc[i])]]

(* reported boundaries: the configured ones and one +Inf *)
ReportedBounds(b) ==
  IF Len(b) > 0 /\ b[Len(b)] = PInf THEN b ELSE Append(b, PInf)

(* numbers of observations v <= bound i of the reported boundaries *)
ReportedCounts(h) ==
  LET c == Cumulate(h.cnt)
      k == Len(ReportedBounds(h.b))
  IN [i \in 1..k |-> IF i = k THEN c[Len(c)] ELSE c[i]]

(* does the collected value c show the metric m? *)
Shows(m, c) ==
  CASE m.ty \in {"counter", "gauge"} -> Same(m.val, c.v)
    [] m.ty = "info" -> c.v = One
    [] m.ty = "histogram" ->
         LET rb == ReportedBounds(m.b)
             rc == ReportedCounts(m)
         IN
         /\ Len(c.b) = Len(rb)
         /\ \A i \in 1..Len(rb) : c.b[i][1] = rb[i] /\ c.b[i][2] = rc[i]
         /\ c.n = rc[Len(rb)]
         /\ Same(m.sum, c.sum)
    [] m.ty = "summary" ->
         /\ c.n = m.cnt
         /\ Same(m.sum, c.sum)
         /\ [i \in 1..Len(c.q) |-> c.q[i][1]] = m.q

(* --------------------------------------------------------------------- *)
(* world: registries, families, metric objects                           *)

EmptyWorld == [regs |-> <<>>, fams |-> <<>>, objs |-> <<>>]

LabelsOk(lab, ty) == \A p \in lab : ValidLabelName(p[1], ty)

LiveFams(st, r) == {f \in DOMAIN st.fams : st.fams[f].reg = r /\ st.fams[f].alive}

(* a family reports nothing while it has no metrics *)
Reporting(st, F) == {f \in F : st.fams[f].mets # {}}

(* does the collected metric cm show metric object o with labels lab of family f *)
ShowsMetric(st, f, p, cm) ==
  /\ Len(cm.lab) = Cardinality(Elems(cm.lab))
  /\ Elems(cm.lab) = st.fams[f].const \cup p.lab
  /\ Shows(st.objs[p.obj], cm.c)

ShowsFamily(st, f, cf) ==
  LET fam == st.fams[f] IN
  /\ cf.name = fam.name
  /\ cf.help = fam.help
  /\ cf.ty = fam.ty
  /\ Len(cf.m) = Cardinality(fam.mets)
  /\ \A p \in fam.mets : \E i \in 1..Len(cf.m) : ShowsMetric(st, f, p, cf.m[i])

ShowsFamilies(st, F, cfs) ==
  LET R == Reporting(st, F) IN
  /\ Len(cfs) = Cardinality(R)
  /\ \A f \in R : \E i \in 1..Len(cfs) : ShowsFamily(st, f, cfs[i])

If(c, S) == IF c THEN S ELSE {}
Ok(e) == e.ex = ""
Unchanged(c, st) == If(c, {st})
Rejected(e, st) == If(e.ex = "invalid_argument", {st})

NewFamily(st, e, r) ==
  If(Ok(e) /\ e.id \notin DOMAIN st.fams,
     {[st EXCEPT !.fams = @ @@ (e.id :>
        [reg |-> r, alive |-> TRUE, ty |-> e.ty, name |-> e.name, help |-> e.help,
         const |-> Elems(e.lab), mets |-> {}])]})

FamilyArgsOk(e) == ValidMetricName(e.name) /\ LabelsOk(Elems(e.lab), e.ty)

SetObj(st, o, m) == {[st EXCEPT !.objs[o] = m]}

StepBuild(st, e) ==
  LET same == {f \in LiveFams(st, e.r) : st.fams[f].name = e.name} IN
  IF same # {}
  THEN LET f == CHOOSE f \in same : TRUE IN
       IF st.regs[e.r] = "merge" /\ st.fams[f].ty = e.ty /\ st.fams[f].const = Elems(e.lab)
       THEN Unchanged(Ok(e) /\ e.id = f, st)
       ELSE Rejected(e, st)
  ELSE IF FamilyArgsOk(e) THEN NewFamily(st, e, e.r) ELSE Rejected(e, st)

StepAdd(st, e) ==
  LET fam  == st.fams[e.f]
      lab  == Elems(e.lab)
      same == {p \in fam.mets : p.lab = lab}
  IN IF ~CtorOk(fam.ty, e.a) THEN Rejected(e, st)
     ELSE IF same # {} THEN Unchanged(Ok(e) /\ \A p \in same : e.id = p.obj, st)
     ELSE IF ~LabelsOk(lab, fam.ty) THEN Rejected(e, st)
     ELSE IF \E p \in lab, q \in fam.const : p[1] = q[1] THEN Rejected(e, st)
     ELSE If(Ok(e) /\ e.id \notin DOMAIN st.objs,
             {[st EXCEPT !.fams[e.f].mets = @ \cup {[lab |-> lab, obj |-> e.id]},
                         !.objs = @ @@ (e.id :> NewMetric(fam.ty, e.a))]})

StepBulk(st, e, m) ==
  IF Len(e.inc) # Len(m.cnt) THEN Unchanged(e.ex # "", st)
  ELSE If(Ok(e), SetObj(st, e.o, HistBulk(m, e.inc, e.s)))

Step(st, e) ==
  CASE e.op = "newreg"  -> {[st EXCEPT !.regs = @ @@ (e.r :> e.beh)]}
    [] e.op = "build"   -> StepBuild(st, e)
    [] e.op = "newfam"  -> IF FamilyArgsOk(e) THEN NewFamily(st, e, 0) ELSE Rejected(e, st)
    [] e.op = "add"     -> StepAdd(st, e)
    [] e.op = "newobj"  -> IF CtorOk(e.ty, e.a)
                           THEN If(Ok(e) /\ e.id \notin DOMAIN st.objs,
                                   {[st EXCEPT !.objs = @ @@ (e.id :> NewMetric(e.ty, e.a))]})
                           ELSE Rejected(e, st)
    [] e.op = "fremove" -> If(Ok(e), {[st EXCEPT !.fams[e.f].mets = {p \in @ : p.obj # e.o}]})
    [] e.op = "has"     -> Unchanged(Ok(e) /\ e.res = (\E p \in st.fams[e.f].mets : p.lab = Elems(e.lab)), st)
    [] e.op = "finfo"   -> Unchanged(/\ e.name = st.fams[e.f].name
                                     /\ Elems(e.lab) = st.fams[e.f].const, st)
    [] e.op = "fcollect" -> Unchanged(Ok(e) /\ ShowsFamilies(st, {e.f}, e.res), st)
    [] e.op = "rcollect" -> Unchanged(Ok(e) /\ ShowsFamilies(st, LiveFams(st, e.r), e.res), st)
    [] e.op = "rremove" -> LET in == e.f \in LiveFams(st, e.r) IN
                           If(Ok(e) /\ e.res = in,
                              IF in THEN {[st EXCEPT !.fams[e.f].alive = FALSE]} ELSE {st})
    \* operations on the metric object e.o
    [] e.op = "inc"     -> LET m == st.objs[e.o] IN
                           IF m.ty = "counter" /\ IsNegative(e.v) THEN {st}
                           ELSE SetObj(st, e.o, [m EXCEPT !.val = Add(@, e.v)])
    [] e.op = "dec"     -> SetObj(st, e.o, [st.objs[e.o] EXCEPT !.val = Add(@, Neg(e.v))])
    [] e.op = "set"     -> SetObj(st, e.o, [st.objs[e.o] EXCEPT !.val = e.v])
    [] e.op = "settime" -> {[st EXCEPT !.objs[e.o].val = c] : c \in Elems(e.cands)}
    [] e.op = "reset"   -> LET m == st.objs[e.o] IN
                           IF m.ty = "counter" THEN SetObj(st, e.o, NewMetric(m.ty, <<>>))
                           ELSE SetObj(st, e.o, NewMetric(m.ty, [b |-> m.b]))
    [] e.op = "value"   -> Unchanged(Same(st.objs[e.o].val, e.res), st)
    [] e.op = "ocollect" -> Unchanged(Ok(e) /\ Shows(st.objs[e.o], e.res), st)
    [] e.op = "obs"     -> LET m == st.objs[e.o] IN
                           IF m.ty = "histogram" THEN SetObj(st, e.o, HistObserve(m, e.v))
                           ELSE SetObj(st, e.o, [m EXCEPT !.sum = Add(@, e.v), !.cnt = Add(@, One)])
    [] e.op = "adv"     -> {st}        \* time passing keeps everything but quantiles, see Window.tla
    [] e.op = "bulk"    -> StepBulk(st, e, st.objs[e.o])
    [] OTHER            -> {}          \* "crash", "hang", unexpected exceptions

(* --------------------------------------------------------------------- *)
(* properties of the world                                               *)

(* C11: a name belongs to one family of a registry *)
UniqueNames(st) ==
  \A f, g \in DOMAIN st.fams :
    (f # g /\ st.fams[f].alive /\ st.fams[g].alive /\ st.fams[f].reg = st.fams[g].reg
     /\ st.fams[f].reg # 0) => st.fams[f].name # st.fams[g].name

(* C09: one object per label set and one label set per object *)
UniqueMetrics(st) ==
  /\ \A f \in DOMAIN st.fams : \A p, q \in st.fams[f].mets :
       p # q => p.lab # q.lab /\ p.obj # q.obj
  /\ \A f, g \in DOMAIN st.fams : f # g =>
       {p.obj : p \in st.fams[f].mets} \cap {p.obj : p \in st.fams[g].mets} = {}

(* C10: everything registered is valid *)
OnlyValid(st) ==
  \A f \in DOMAIN st.fams : LET fam == st.fams[f] IN
    /\ ValidMetricName(fam.name)
    /\ LabelsOk(fam.const, fam.ty)
    /\ \A p \in fam.mets : /\ LabelsOk(p.lab, fam.ty)
                           /\ {x[1] : x \in p.lab} \cap {x[1] : x \in fam.const} = {}

(* C03: boundaries are strictly increasing, counts are cumulative *)
HistogramsOk(st) ==
  \A o \in DOMAIN st.objs : LET m == st.objs[o] IN
    m.ty = "histogram" =>
      /\ StrictlySorted(m.b)
      /\ \A i \in 1..Len(m.cnt) : ~IsNegative(m.cnt[i])
      /\ LET rb == ReportedBounds(m.b)
             rc == ReportedCounts(m) IN
           /\ \A i \in 1..(Len(rb) - 1) : Le(rc[i], rc[i + 1])
           /\ Cardinality({i \in 1..Len(rb) : rb[i] = PInf}) = 1

StructureOk(st) == UniqueNames(st) /\ UniqueMetrics(st) /\ OnlyValid(st)
WorldOk(st) == StructureOk(st) /\ HistogramsOk(st)
=============================================================================
