--------------------------- MODULE MCGatewayConc ---------------------------
(* A model of the gateway client's algorithm: pushes that collect and send one   *)
(* collectable after the other under the gateway's mutex, asynchronous pushes     *)
(* that collect under it and send from threads of their own, requests one at a     *)
(* time under the mutex of the HTTP client.  Checked: every behaviour is allowed    *)
(* by GatewayConc (Conforms, Ends) and everything completes.  Its behaviours are     *)
(* replayed into the real client: env lists what the environment does (calls, when a *)
(* collectable's work ends, how and when the server answers).                         *)
EXTENDS GatewayConc, Json

CONSTANTS MaxOps,      \* pushes and deletes
          MaxCalls,    \* other calls
          Ops, Outs, Cols, Emitting, Prepared,
          Variant      \* "ok"; faulty: "goon": a push goes on after a failure; "shared":
                       \* asynchronous requests share one body; "early": an asynchronous push
                       \* ends with its first request; "weak": collectables are not kept alive;
                       \* "twice": a failed request is repeated; "lost": failures are forgotten

VARIABLES st,     \* the specification's states; {} after a forbidden event
          im,     \* [cols, ref, mx, cm, hdrs, nreq, ng, body]
          th,     \* calls: sequence of [pc, c, idx, g, res]
          tk,     \* requests of asynchronous pushes: sequence of [pc, n, id, g]
          env
vars == <<st, im, th, tk, env>>

Step1(S, e) == UNION {Step(s, e) : s \in S}
Ev(e) == st' = Step1(st, e)

Letter(n) == <<48 + n>>
Cfg == [job |-> <<106>>, labels |-> <<<<<<103>>, <<49>>>>>>, auth |-> <<>>]
RegLabels(i) == <<<<<<99>>, Letter(i)>>>>
JobPath == Metrics \o <<47, 106, 111, 98, 47, 106>>
GwPath == JobPath \o <<47, 103, 47, 49>>
Path(i) == GwPath \o <<47, 99, 47>> \o Letter(i)

Nums == 1..Cardinality(Cols)
ColCall(i) == [ev |-> "call", n |-> 100 + i, op |-> "col", id |-> i, fams |-> 1]
RegCall(i) == [ev |-> "call", n |-> 200 + i, op |-> "reg", id |-> i, labels |-> RegLabels(i)]
Ret(n, res) == [ev |-> "ret", n |-> n, res |-> res]
Both(S, e) == Step1(Step1(S, e), Ret(e.n, 0))
Cs(S) == Both(Both(S, ColCall(1)), ColCall(2))
Setup == IF Prepared THEN Both(Both(Cs({Fresh(Cfg)}), RegCall(1)), RegCall(2)) ELSE Cs({Fresh(Cfg)})

Init == /\ st = Setup
        /\ im = [cols |-> IF Prepared THEN <<1, 2>> ELSE <<>>, ref |-> [i \in Cols |-> 1], mx |-> 0, cm |-> 0,
                 hdrs |-> <<>>, nreq |-> 0, ng |-> 0, body |-> 0]
        /\ th = <<>> /\ tk = <<>> /\ env = <<>>

Note(x) == env' = IF Emitting THEN Append(env, x) ELSE env
Silent == UNCHANGED <<st, env>>
Pending == {k \in DOMAIN th : th[k].pc # "done"}
IsOp(c) == c.op \in Pushes \cup Deletes

CallSet ==
  {[op |-> o, async |-> a, id |-> 0] : o \in (Pushes \cup Deletes) \cap Ops, a \in (IF "async" \in Ops THEN BOOLEAN ELSE {FALSE})}
  \cup {[op |-> "reg", id |-> i, labels |-> RegLabels(i)] : i \in (IF "reg" \in Ops THEN Cols ELSE {})}
  \cup {[op |-> "drop", id |-> i] : i \in (IF "drop" \in Ops THEN Cols ELSE {})}
  \cup {[op |-> "header", id |-> 0, h |-> <<<<88>>, Letter(Len(th))>>] : x \in {"header"} \cap Ops}

Sensible(c) ==
  CASE c.op = "reg" -> /\ \A i \in DOMAIN im.cols : im.cols[i] # c.id
                       /\ \A k \in DOMAIN th : ~(th[k].c.op = "reg" /\ th[k].c.id = c.id)
                       /\ \A s \in st : c.id \in s.live
    [] c.op = "drop" -> \A s \in st : c.id \in s.live /\ c.id \in {s.regs[r].id : r \in DOMAIN s.regs}
    [] OTHER -> TRUE

StartCall ==
  \E c \in CallSet :
    LET e == [ev |-> "call", n |-> Len(th) + 1] @@ c
        num(isop) == Cardinality({k \in DOMAIN th : IsOp(th[k].c) = isop})
    IN /\ num(IsOp(c)) < (IF IsOp(c) THEN MaxOps ELSE MaxCalls)
       /\ Cardinality(Pending) < 3
       /\ Sensible(c)
       /\ Ev(e)
       /\ Note(e @@ [during |-> {<<th[k].c.op, th[k].pc>> : k \in Pending} \cup {<<"task", tk[x].pc>> : x \in {y \in DOMAIN tk : tk[y].pc # "done"}}])
       /\ th' = Append(th, [pc |-> "begun", c |-> c, idx |-> 1, g |-> 0, res |-> 0])
       /\ UNCHANGED <<im, tk>>

To(k, pc) == th' = [th EXCEPT ![k].pc = pc]
C(k) == th[k].c
IsPush(k) == C(k).op \in Pushes
IsAsync(k) == IsOp(C(k)) /\ C(k).async

(* --------------------------------------------------- under the gateway's mutex *)
Lock(k) == /\ th[k].pc = "begun" /\ (IsPush(k) \/ C(k).op = "reg") /\ im.mx = 0
           /\ im' = [im EXCEPT !.mx = k] /\ To(k, IF IsPush(k) THEN "next" ELSE "add") /\ Silent /\ UNCHANGED tk
Alive(s) == SelectSeq(s, LAMBDA i : im.ref[i] > 0)
Add(k) == /\ th[k].pc = "add"
          /\ im' = [im EXCEPT !.mx = 0, !.cols = Append(Alive(@), C(k).id)]
          /\ To(k, "end") /\ Silent /\ UNCHANGED tk

Hold(i, d) == IF Variant = "weak" THEN im ELSE [im EXCEPT !.ref[i] = @ + d]
NextCol(k) ==
  /\ th[k].pc = "next"
  /\ IF th[k].idx > Len(im.cols)
     THEN /\ im' = [im EXCEPT !.mx = 0]
          /\ th' = [th EXCEPT ![k].pc = IF C(k).async THEN "wait" ELSE "end", ![k].res = IF @ = 0 THEN 200 ELSE @]
          /\ Silent /\ UNCHANGED tk
     ELSE LET i == im.cols[th[k].idx] IN
          IF im.ref[i] = 0 THEN th' = [th EXCEPT ![k].idx = @ + 1] /\ Silent /\ UNCHANGED <<im, tk>>
          ELSE /\ im' = [Hold(i, 1) EXCEPT !.ng = @ + 1]
               /\ th' = [th EXCEPT ![k].pc = "in", ![k].g = im.ng + 1]
               /\ Ev([ev |-> "cs", id |-> i, g |-> im.ng + 1]) /\ UNCHANGED <<tk, env>>

Gone(S, i, last) == IF last THEN Step1(S, [ev |-> "gone", id |-> i]) ELSE S

Out(k) ==
  /\ th[k].pc = "in"
  /\ LET i == im.cols[th[k].idx]
         last == C(k).async /\ Variant # "weak" /\ im.ref[i] = 1
         e == [ev |-> "ce", id |-> i]
     IN /\ st' = Gone(Step1(st, e @@ [g |-> th[k].g]), i, last)
        /\ Note(e)
        /\ IF C(k).async
           THEN /\ th' = [th EXCEPT ![k].pc = "next", ![k].idx = @ + 1]
                /\ tk' = Append(tk, [pc |-> "begun", n |-> k, id |-> i, g |-> th[k].g, res |-> 0])
                /\ im' = [Hold(i, -1) EXCEPT !.body = th[k].g]
           ELSE To(k, "send") /\ UNCHANGED <<im, tk>>

(* --------------------------------------------------- the HTTP client's mutex *)
Request(n, m, p, toks) ==
  Ev([ev |-> "req", q |-> im.nreq + 1, m |-> m, path |-> p, ctype |-> "ok", auth |-> <<>>, text |-> TRUE, toks |-> toks, hdrs |-> im.hdrs])

Send(k) ==
  /\ im.cm = 0
  /\ \/ th[k].pc = "send" /\ Request(k, Method(C(k).op), Path(im.cols[th[k].idx]), <<<<im.cols[th[k].idx], th[k].g, 0>>>>)
     \/ C(k).op \in Deletes /\ th[k].pc = "begun" /\ Request(k, "DELETE", IF C(k).op = "del" THEN JobPath ELSE GwPath, <<>>)
  /\ im' = [im EXCEPT !.cm = k, !.nreq = @ + 1] /\ To(k, "sent") /\ UNCHANGED <<tk, env>>

Status(o) == CASE o = "ok" -> [k |-> "status", s |-> 200] [] o = "fail" -> [k |-> "status", s |-> 400 + im.nreq] [] OTHER -> [k |-> "fault", s |-> 0]
Code(o) == CASE o = "ok" -> 200 [] o = "fail" -> 400 + im.nreq [] OTHER -> -1
Answered(o) == Ev([ev |-> "ans", q |-> im.nreq, out |-> Status(o)]) /\ Note([ev |-> "ans", out |-> o])

Response(k) ==
  /\ th[k].pc = "sent"
  /\ \E o \in Outs :
       LET ok == o = "ok" \/ Variant = "goon" IN
       /\ Answered(o)
       /\ im' = [im EXCEPT !.cm = 0]
       /\ IF C(k).op \in Deletes THEN th' = [th EXCEPT ![k].pc = "end", ![k].res = Code(o)]
          ELSE IF Variant = "twice" /\ o # "ok" /\ th[k].res = 0 THEN th' = [th EXCEPT ![k].pc = "send", ![k].res = Code(o)]
          ELSE th' = [th EXCEPT ![k].pc = IF ok THEN "drop" ELSE "fail", ![k].res = IF o = "ok" \/ Variant = "lost" THEN @ ELSE Code(o)]
       /\ UNCHANGED tk

Drop_(k) ==      \* a synchronous push lets go of the collectable
  /\ th[k].pc \in {"drop", "fail"}
  /\ LET i == im.cols[th[k].idx]
         last == Variant # "weak" /\ im.ref[i] = 1 IN
     /\ im' = [Hold(i, -1) EXCEPT !.mx = IF th[k].pc = "fail" THEN 0 ELSE @]
     /\ st' = Gone(st, i, last)
     /\ th' = [th EXCEPT ![k].pc = IF @ = "fail" THEN "end" ELSE "next", ![k].idx = @ + 1]
     /\ UNCHANGED <<tk, env>>

TaskSend(x) ==
  /\ tk[x].pc = "begun" /\ im.cm = 0
  /\ Request(tk[x].n, Method(C(tk[x].n).op), Path(tk[x].id), <<<<tk[x].id, IF Variant = "shared" THEN im.body ELSE tk[x].g, 0>>>>)
  /\ im' = [im EXCEPT !.cm = 1, !.nreq = @ + 1] /\ tk' = [tk EXCEPT ![x].pc = "sent"] /\ UNCHANGED <<th, env>>
TaskResponse(x) ==
  /\ tk[x].pc = "sent"
  /\ \E o \in Outs : Answered(o) /\ tk' = [tk EXCEPT ![x].pc = "done", ![x].res = IF Variant = "lost" THEN 200 ELSE Code(o)]
  /\ im' = [im EXCEPT !.cm = 0] /\ UNCHANGED th
Reduce(k) ==     \* the last failure
  /\ th[k].pc = "wait"
  /\ LET mine == {x \in DOMAIN tk : tk[x].n = k}
         fails == {x \in mine : tk[x].pc = "done" /\ tk[x].res # 200} IN
     /\ (\A x \in mine : tk[x].pc = "done") \/ (Variant = "early" /\ \E x \in mine : tk[x].pc = "done")
     /\ th' = [th EXCEPT ![k].pc = "end",
                         ![k].res = IF fails = {} THEN 200 ELSE tk[CHOOSE x \in fails : \A y \in fails : y <= x].res]
  /\ Silent /\ UNCHANGED <<im, tk>>

AddHeader(k) ==
  /\ th[k].pc = "begun" /\ C(k).op = "header" /\ im.cm = 0
  /\ im' = [im EXCEPT !.hdrs = Append(@, C(k).h)]
  /\ th' = [th EXCEPT ![k].pc = "end", ![k].res = 1] /\ Silent /\ UNCHANGED tk

DropRef(k) ==
  /\ th[k].pc = "begun" /\ C(k).op = "drop"
  /\ im' = [im EXCEPT !.ref[C(k).id] = @ - 1]
  /\ st' = Gone(st, C(k).id, im.ref[C(k).id] = 1)
  /\ To(k, "end") /\ UNCHANGED <<tk, env>>

Return(k) == th[k].pc = "end" /\ Ev(Ret(k, th[k].res)) /\ To(k, "done") /\ UNCHANGED <<im, tk, env>>

Idle == Pending = {} /\ \A x \in DOMAIN tk : tk[x].pc = "done"
Finished == Idle /\ UNCHANGED vars

Internal == \/ \E k \in DOMAIN th : Lock(k) \/ Add(k) \/ NextCol(k) \/ Send(k) \/ Drop_(k) \/ Reduce(k) \/ AddHeader(k) \/ DropRef(k) \/ Return(k)
            \/ \E x \in DOMAIN tk : TaskSend(x)
Work == (\E k \in DOMAIN th : Out(k) \/ Response(k)) \/ \E x \in DOMAIN tk : TaskResponse(x)
System == Internal \/ Work
Environment == /\ ~Emitting \/ ~ENABLED Internal
               /\ StartCall \/ Work
Next == Environment \/ Internal \/ Finished
Spec == Init /\ [][Next]_vars /\ WF_vars(System)

Conforms == st # {}
Ends == Idle => \E s \in st : Step(s, [ev |-> "end"]) # {}
Inv == Conforms /\ Ends
View == <<st, im, th, tk>>

Full == Idle /\ Cardinality({k \in DOMAIN th : IsOp(th[k].c)}) = MaxOps /\ Len(th) = MaxOps + MaxCalls
Emit == Full' /\ ~Full => PrintT(<<"SEQ", ToJson(env')>>)
Returns == \A k \in 1..(MaxOps + MaxCalls) : [](k \in DOMAIN th => <>(k \in DOMAIN th /\ th[k].pc = "done"))
=============================================================================
