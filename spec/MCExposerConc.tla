--------------------------- MODULE MCExposerConc ---------------------------
(* A model of the exposer's algorithm: server threads that authorize, collect  *)
(* under the path's lock and answer; callers that register, remove, drop,       *)
(* replace authentication and destroy.  Checked: every behaviour is allowed by   *)
(* ExposerConc (invariant Conforms), everything completes (no deadlock, every    *)
(* call returns).  Its behaviours are replayed into the real exposer: env lists   *)
(* what the environment does (requests, calls, and when a collectable's or        *)
(* callback's work ends).                                                         *)
EXTENDS ExposerConc, Json

CONSTANTS MaxReqs, MaxCalls, Ops, Emitting, Variant, Prepared
  (* Prepared: path 1 starts with collectable 1 and authentication by callback 1 *)
  (* Variant: "locked": collect under the lock; "copied": copy the list under    *)
  (* the lock, collect without; faulty designs: "raw": collectables are not kept  *)
  (* alive; "first": destruction does not wait; "lazy": a call may return         *)
  (* without effect; "writing": the lock is held until the client has read       *)

P == 1..2
I == 1..2
VARIABLES st,      \* the specification's state; {} after a forbidden event
          im,      \* the implementation: cols, ref, auth, lock, mx, up
          rq,      \* requests: sequence of [pc, path, u, idx, seq, got, cb]
          cl,      \* calls: sequence of [pc, c]
          env
vars == <<st, im, rq, cl, env>>

Ev(e) == st' = UNION {Step(s, e) : s \in st}

Accepts(cb, u) == u = cb          \* callback cb accepts user cb
OkUsers(cb) == <<cb>>

Setup == LET c(i) == [ev |-> "call", n |-> 100 + i, op |-> "col", id |-> i, fams |-> 1]
             r(i) == [ev |-> "ret", n |-> 100 + i, ok |-> TRUE]
             s1 == CHOOSE s \in Step(Fresh, c(1)) : TRUE
             s2 == CHOOSE s \in Step(s1, r(1)) : TRUE
             s3 == CHOOSE s \in Step(s2, c(2)) : TRUE
         IN Step(s3, r(2))

PrepCalls == <<[ev |-> "call", n |-> 1, op |-> "reg", id |-> 1, uri |-> 1],
               [ev |-> "call", n |-> 2, op |-> "auth", id |-> 0, uri |-> 1, cb |-> 1, ok |-> OkUsers(1)]>>
Prep == LET after(S, k) == UNION {Step(t, [ev |-> "ret", n |-> k, ok |-> TRUE]) : t \in UNION {Step(s, PrepCalls[k]) : s \in S}}
        IN after(after(Setup, 1), 2)

Init == /\ st = IF Prepared THEN Prep ELSE Setup
        /\ im = [cols |-> [p \in P |-> IF Prepared /\ p = 1 THEN <<1>> ELSE <<>>], ep |-> [p \in P |-> Prepared /\ p = 1],
                 ref |-> [i \in I |-> 1], auth |-> [p \in P |-> IF Prepared /\ p = 1 THEN 1 ELSE 0],
                 lock |-> [p \in P |-> 0], mx |-> 0, up |-> "run"]
        /\ rq = <<>>
        /\ cl = IF Prepared THEN [k \in 1..2 |-> [pc |-> "done", c |-> PrepCalls[k]]] ELSE <<>>
        /\ env = IF Emitting /\ Prepared THEN [k \in 1..2 |-> PrepCalls[k] @@ [during |-> {}]] ELSE <<>>

Note(x) == env' = IF Emitting THEN Append(env, x) ELSE env

Pending == {k \in 1..Len(cl) : cl[k].pc # "done"}

(* ---------------------------------------------------------------- requests *)
SendReq == /\ Len(rq) < MaxReqs
           /\ \E p \in P, u \in (IF "auth" \in Ops THEN 0..2 ELSE {0}), s \in (IF "slow" \in Ops THEN BOOLEAN ELSE {FALSE}) :
                LET e == [ev |-> "req", q |-> Len(rq) + 1, path |-> p, u |-> u, slow |-> s] IN
                /\ rq' = Append(rq, [pc |-> "arrived", path |-> p, u |-> u, idx |-> 1, seq |-> <<>>, got |-> <<>>, cb |-> 0, slow |-> s])
                /\ Ev(e) /\ Note(e @@ [during |-> {<<cl[k].c.op, cl[k].pc, im.auth[p] # 0, u = im.auth[p]>> : k \in Pending}])
           /\ UNCHANGED <<im, cl>>

Answer(status, toks) == [status |-> status, framed |-> TRUE, text |-> TRUE, selfs |-> TRUE, toks |-> toks, reveals |-> FALSE]

Reply(q, status, toks) == /\ Ev([ev |-> "res", q |-> q, a |-> Answer(status, toks)])
                          /\ rq' = [rq EXCEPT ![q].pc = "done"]
                          /\ UNCHANGED <<im, cl, env>>

Silent == UNCHANGED <<st, env>>
To(q, pc) == rq' = [rq EXCEPT ![q].pc = pc]

Arrive(q) ==
  /\ rq[q].pc = "arrived"
  /\ LET p == rq[q].path IN
     IF im.up = "down" THEN Reply(q, 0, <<>>)
     ELSE IF ~im.ep[p] \/ im.up = "stopping" THEN Reply(q, 404, <<>>)
     ELSE IF im.auth[p] = 0 THEN To(q, "enter") /\ Silent /\ UNCHANGED <<im, cl>>
     ELSE IF rq[q].u = 0 THEN Reply(q, 401, <<>>)
     ELSE /\ rq' = [rq EXCEPT ![q].pc = "asking", ![q].cb = im.auth[p]]
          /\ Ev([ev |-> "as", cb |-> im.auth[p], u |-> rq[q].u])
          /\ UNCHANGED <<im, cl, env>>

Asked(q) ==       \* the callback returns
  /\ rq[q].pc = "asking"
  /\ LET e == [ev |-> "ae", cb |-> rq[q].cb] IN Ev(e) /\ Note(e)
  /\ To(q, IF Accepts(rq[q].cb, rq[q].u) THEN "enter" ELSE "refused")
  /\ UNCHANGED <<im, cl>>

Refused(q) == rq[q].pc = "refused" /\ Reply(q, 401, <<>>)

Enter(q) ==
  /\ rq[q].pc = "enter"
  /\ LET p == rq[q].path IN
     IF im.up # "run" THEN Reply(q, 404, <<>>)
     ELSE /\ im.lock[p] = 0
          /\ im' = IF Variant = "copied" THEN im ELSE [im EXCEPT !.lock[p] = q]
          /\ rq' = [rq EXCEPT ![q].pc = "next", ![q].seq = im.cols[p]]
          /\ Silent /\ UNCHANGED cl

Next_(q) ==
  /\ rq[q].pc = "next"
  /\ LET r == rq[q] IN
     IF r.idx > Len(r.seq) THEN /\ im' = IF Variant \in {"copied", "writing"} THEN im ELSE [im EXCEPT !.lock[r.path] = 0]
                                /\ To(q, "write") /\ Silent /\ UNCHANGED cl
     ELSE IF im.ref[r.seq[r.idx]] = 0 THEN rq' = [rq EXCEPT ![q].idx = @ + 1] /\ Silent /\ UNCHANGED <<im, cl>>
     ELSE /\ im' = IF Variant = "raw" THEN im ELSE [im EXCEPT !.ref[r.seq[r.idx]] = @ + 1]
          /\ To(q, "in")
          /\ Ev([ev |-> "cs", id |-> r.seq[r.idx]]) /\ UNCHANGED <<cl, env>>

Out(q) ==        \* the collectable returns its data
  /\ rq[q].pc = "in"
  /\ LET i == rq[q].seq[rq[q].idx]
         e == [ev |-> "ce", id |-> i]
         last == Variant # "raw" /\ im.ref[i] = 1
     IN /\ im' = IF Variant = "raw" THEN im ELSE [im EXCEPT !.ref[i] = @ - 1]
        /\ st' = IF last THEN UNION {Step(t, [ev |-> "gone", id |-> i]) : t \in UNION {Step(s, e) : s \in st}}
                 ELSE UNION {Step(s, e) : s \in st}
        /\ Note(e)
        /\ rq' = [rq EXCEPT ![q].pc = "next", ![q].idx = @ + 1, ![q].got = Append(@, <<i, 0>>)]
        /\ UNCHANGED cl

(* a slow client reads its answer after all *)
Drain(q) == /\ rq[q].pc = "write" /\ rq[q].slow
            /\ rq' = [rq EXCEPT ![q].slow = FALSE]
            /\ LET e == [ev |-> "drain", q |-> q] IN Ev(e) /\ Note(e)
            /\ UNCHANGED <<im, cl>>
Write(q) == /\ rq[q].pc = "write" /\ ~rq[q].slow
            /\ Ev([ev |-> "res", q |-> q, a |-> Answer(200, rq[q].got)])
            /\ To(q, "done")
            /\ im' = IF Variant = "writing" THEN [im EXCEPT !.lock[rq[q].path] = 0] ELSE im
            /\ UNCHANGED <<cl, env>>

(* ------------------------------------------------------------------- calls *)
CallSet ==
  {[op |-> k, id |-> i, uri |-> p] : k \in {"reg", "rem"} \cap Ops, i \in I, p \in P}
  \cup {[op |-> "drop", id |-> i, uri |-> 0] : i \in (IF "drop" \in Ops THEN I ELSE {})}
  \cup {[op |-> "auth", id |-> 0, uri |-> p, cb |-> c, ok |-> OkUsers(c)] : p \in (IF "auth" \in Ops THEN {1} ELSE {}), c \in 1..2}
  \cup {[op |-> "destroy", id |-> 0, uri |-> 0] : x \in {"destroy"} \cap Ops}

InUse(i, p) == \E k \in Pending : cl[k].c.id = i /\ (cl[k].c.uri = p \/ cl[k].c.op = "drop" \/ p = 0)
Has(p, i) == \E k \in 1..Len(im.cols[p]) : im.cols[p][k] = i

Sensible(c) ==
  CASE c.op = "reg" -> ~Has(c.uri, c.id) /\ ~InUse(c.id, c.uri) /\ im.ref[c.id] > 0
    [] c.op = "rem" -> Has(c.uri, c.id) /\ ~InUse(c.id, c.uri)
    [] c.op = "drop" -> im.ref[c.id] > 0 /\ ~InUse(c.id, 0) /\ \A s \in st : c.id \in s.live
    [] c.op = "auth" -> \A k \in Pending : cl[k].c.op # "auth"
    [] c.op = "destroy" -> Pending = {}
    [] OTHER -> TRUE

StartCall == /\ Len(cl) < MaxCalls /\ Cardinality(Pending) < 2 /\ im.up = "run"
             /\ \A k \in Pending : cl[k].c.op # "destroy"
             /\ \E c \in CallSet :
                  /\ Sensible(c)
                  /\ LET e == [ev |-> "call", n |-> Len(cl) + 1] @@ c
                         during == {<<rq[q].pc, rq[q].path = c.uri, c.op = "auth" /\ rq[q].cb = c.cb>> : q \in {x \in 1..Len(rq) : rq[x].pc # "done"}}
                     IN Ev(e) /\ Note(e @@ [during |-> during])
                  /\ cl' = Append(cl, [pc |-> "begun", c |-> c])
             /\ UNCHANGED <<im, rq>>

ToC(k, pc) == cl' = [cl EXCEPT ![k].pc = pc]

Lock(k) == /\ cl[k].pc = "begun" /\ cl[k].c.op \in {"reg", "rem", "auth"} /\ im.mx = 0
           /\ im' = [im EXCEPT !.mx = k, !.ep[cl[k].c.uri] = TRUE]
           /\ ToC(k, "locked") /\ Silent /\ UNCHANGED rq

Filter(s, i) == SelectSeq(s, LAMBDA x : x # i)

Effect(k) ==
  LET c == cl[k].c IN
  /\ cl[k].pc = "locked"
  /\ c.op \in {"reg", "rem"} => im.lock[c.uri] = 0
  /\ im' = CASE c.op = "reg" -> [im EXCEPT !.mx = 0, !.cols[c.uri] = Append(@, c.id)]
             [] c.op = "rem" -> [im EXCEPT !.mx = 0, !.cols[c.uri] = Filter(@, c.id)]
             [] c.op = "auth" -> [im EXCEPT !.mx = 0, !.auth[c.uri] = c.cb]
  /\ ToC(k, "end") /\ Silent /\ UNCHANGED rq

DropRef(k) ==
  LET i == cl[k].c.id IN
  /\ cl[k].pc = "begun" /\ cl[k].c.op = "drop"
  /\ im' = [im EXCEPT !.ref[i] = @ - 1]
  /\ IF im.ref[i] = 1 THEN Ev([ev |-> "gone", id |-> i]) ELSE st' = st
  /\ ToC(k, "end") /\ UNCHANGED <<rq, env>>

Handling == {q \in 1..Len(rq) : rq[q].pc \in {"next", "in", "write"}}
Working == {q \in 1..Len(rq) : rq[q].pc \notin {"arrived", "done"}}

Stop(k) == /\ cl[k].c.op = "destroy" /\ cl[k].pc = "begun" /\ (Handling = {} \/ Variant = "first")
           /\ im' = [im EXCEPT !.up = "stopping"] /\ ToC(k, "join") /\ Silent /\ UNCHANGED rq
Join(k) == /\ cl[k].c.op = "destroy" /\ cl[k].pc = "join" /\ (Working = {} \/ Variant = "first")
           /\ im' = [im EXCEPT !.up = "down"] /\ ToC(k, "end") /\ Silent /\ UNCHANGED rq

Return(k) == /\ (cl[k].pc = "end" \/ (Variant = "lazy" /\ cl[k].pc = "locked")) /\ Ev([ev |-> "ret", n |-> k, ok |-> TRUE]) /\ ToC(k, "done") /\ UNCHANGED <<rq, env>>
             /\ im' = IF cl[k].pc = "locked" THEN [im EXCEPT !.mx = 0] ELSE im

Idle == Working = {} /\ Pending = {} /\ \A q \in 1..Len(rq) : rq[q].pc = "done"
Finished == Idle /\ UNCHANGED vars

Internal == \/ \E q \in 1..Len(rq) : Arrive(q) \/ Refused(q) \/ Enter(q) \/ Next_(q) \/ Write(q)
            \/ \E k \in 1..Len(cl) : Lock(k) \/ Effect(k) \/ DropRef(k) \/ Stop(k) \/ Join(k) \/ Return(k)
Work == \E q \in 1..Len(rq) : Asked(q) \/ Out(q)
Slow == \E q \in 1..Len(rq) : Drain(q)
System == Internal \/ Work
(* for replay: the environment waits until nothing else can happen, as it does *)
(* with the real exposer                                                       *)
Environment == /\ ~Emitting \/ ~ENABLED Internal
               /\ SendReq \/ StartCall \/ Work \/ Slow
Next == Environment \/ Internal \/ Finished
Spec == Init /\ [][Next]_vars /\ WF_vars(System) /\ WF_vars(Slow)
SlowSpec == Init /\ [][Next]_vars /\ WF_vars(System)        \* clients that never read

Conforms == st # {}
Ends == Idle => \A s \in st : Step(s, [ev |-> "end"]) # {}
Inv == Conforms /\ Ends

View == <<st, im, rq, cl>>
(* simulation: one line per finished behaviour *)
Full == Len(rq) = MaxReqs /\ (Len(cl) = MaxCalls \/ im.up # "run") /\ Idle
Emit == Full' /\ ~Full => PrintT(<<"SEQ", ToJson(env')>>)
(* every request is answered and every call returns *)
Completes == \A q \in 1..MaxReqs : [](q \in DOMAIN rq => <>(q \in DOMAIN rq /\ rq[q].pc = "done"))
Returns == \A k \in 1..MaxCalls : [](k \in DOMAIN cl => <>(k \in DOMAIN cl /\ cl[k].pc = "done"))
(* whether or not clients read what they are sent *)
Unaffected == /\ \A k \in 1..MaxCalls : [](k \in DOMAIN cl => (cl[k].c.op # "destroy" => <>(k \in DOMAIN cl /\ cl[k].pc = "done")))
              /\ \A q \in 1..MaxReqs : [](q \in DOMAIN rq => (~rq[q].slow => <>(q \in DOMAIN rq /\ rq[q].pc = "done")))
=============================================================================
