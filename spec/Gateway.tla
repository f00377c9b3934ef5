------------------------------- MODULE Gateway -------------------------------
(* A gateway client used by one thread at a time.  Step(st, e): the states      *)
(* after event e, which carries an operation, the requests a server received    *)
(* for it, how it answered each, and the result; {} if that is not allowed.     *)
EXTENDS GroupKey

Set(s) == {s[i] : i \in 1..Len(s)}
If(c, S) == IF c THEN S ELSE {}

(* cfg: [base, job, labels, auth, ua]; auth: <<>> or <<header value>>, ua: <<>>   *)
(* or <<what the setup callback puts into every request>>                        *)
(* cols: id -> [n, ver, alive]; regs: sequence of [id, labels] in order           *)
Created(cfg) == [cfg |-> cfg, cols |-> <<>>, regs |-> <<>>, hdrs |-> <<>>]
Nothing == [cfg |-> [base |-> <<>>], cols |-> <<>>, regs |-> <<>>, hdrs |-> <<>>]

TextFormat == <<116, 101, 120, 116, 47, 112, 108, 97, 105, 110>>     \* text/plain
(* text/plain; version=0.0.4 with any parameters after it *)
TextFormatVersion == <<118, 101, 114, 115, 105, 111, 110, 61, 48, 46, 48, 46, 52>>
Inside(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t

JobKey(st) == {<<Job, st.cfg.job>>}
FullKey(st, labels) == JobKey(st) \cup Set(st.cfg.labels) \cup Set(labels)

Post == "POST"  Put == "PUT"  Delete == "DELETE"

Live(st) == SelectSeq(st.regs, LAMBDA r : st.cols[r.id].alive)

(* the requests of an operation, in order *)
Expected(st, op) ==
  LET push(m) == [k \in 1..Len(Live(st)) |->
                    [m |-> m, key |-> FullKey(st, Live(st)[k].labels),
                     body |-> [j \in 1..st.cols[Live(st)[k].id].n |-> <<Live(st)[k].id, st.cols[Live(st)[k].id].ver, j - 1>>]]]
  IN CASE op = "push"    -> push(Post)
       [] op = "pushadd" -> push(Put)
       [] op = "del"     -> <<[m |-> Delete, key |-> JobKey(st), body |-> <<>>]>>
       [] op = "delinst" -> <<[m |-> Delete, key |-> FullKey(st, <<>>), body |-> <<>>]>>

(* every request carries this *)
Decorated(st, r) ==
  /\ Len(r.ctype) = 1 /\ StartsWith(r.ctype[1], TextFormat) /\ Inside(r.ctype[1], TextFormatVersion)
  /\ r.auth = st.cfg.auth
  /\ r.ua = st.cfg.ua
  /\ Len(r.hdrs) = Len(st.hdrs) /\ Set(r.hdrs) = Set(st.hdrs)

Matches(st, r, x) ==
  /\ r.m = x.m
  /\ IsKey(Key(st.cfg.base, r.path), x.key)
  /\ r.text /\ r.toks = x.body
  /\ Decorated(st, r)

Good(out) == out.k = "status" /\ out.s >= 100 /\ out.s < 400
(* the result an outcome may cause: the status, or any negative code *)
Tells(res, out) == IF out.k = "status" THEN res = out.s ELSE res < 0

(* libcurl repeats a request when a reused connection was closed unanswered *)
Repeatable(r) == r.out.k = "fault" /\ r.reused

RECURSIVE Sync(_, _, _, _)
(* requests rs received for the expected requests xs, one after the other *)
Sync(st, xs, rs, res) ==
  CASE xs = <<>> -> rs = <<>> /\ res = 200
    [] rs = <<>> -> FALSE
    [] ~Matches(st, rs[1], xs[1]) -> FALSE
    [] Good(rs[1].out) -> Sync(st, Tail(xs), Tail(rs), res)
    [] OTHER -> \/ Tail(rs) = <<>> /\ Tells(res, rs[1].out)
                \/ Repeatable(rs[1]) /\ Sync(st, xs, Tail(rs), res)

RECURSIVE Async(_, _, _, _)
(* requests in any order; fails: the outcomes that were no success *)
Async(st, xs, rs, res) ==
  LET fails == {rs[i].out : i \in {k \in 1..Len(rs) : ~Good(rs[k].out)}}
      final == {i \in 1..Len(rs) : ~Repeatable(rs[i])}
  IN /\ \A i \in 1..Len(rs) : \E k \in 1..Len(xs) : Matches(st, rs[i], xs[k])
     /\ \A k \in 1..Len(xs) : \E i \in 1..Len(rs) : Matches(st, rs[i], xs[k])
     /\ Cardinality(final) <= Len(xs) /\ Len(rs) >= Len(xs)
     /\ IF fails = {} THEN res = 200
        ELSE \/ \E f \in fails : Tells(res, f)
             \/ res = 200 /\ \A i \in 1..Len(rs) : Good(rs[i].out) \/ Repeatable(rs[i])

(* a delete's result is the status, whatever it is *)
RECURSIVE Single(_, _, _, _)
Single(st, x, rs, res) ==
  /\ rs # <<>>
  /\ Matches(st, rs[1], x)
  /\ \/ Tail(rs) = <<>> /\ Tells(res, rs[1].out)
     \/ Repeatable(rs[1]) /\ Single(st, x, Tail(rs), res)

(* the server cannot be reached: no request, and failure if there was one to send *)
Down(st, e) == e.reqs = <<>> /\ IF Expected(st, e.op) = <<>> THEN e.res = 200 ELSE e.res < 0

Operate(st, e) ==
  LET xs == Expected(st, e.op) IN
  IF e.down THEN Down(st, e)
  ELSE IF e.op \in {"del", "delinst"} THEN Single(st, xs[1], e.reqs, e.res)
  ELSE IF e.async THEN Async(st, xs, e.reqs, e.res)
  ELSE Sync(st, xs, e.reqs, e.res)

Step(st, e) ==
  CASE e.op = "gw"   -> {[Created(e.cfg) EXCEPT !.cols = st.cols]}
    [] e.op = "col"  -> {[st EXCEPT !.cols = (e.id :> [n |-> e.n, ver |-> 1, alive |-> TRUE]) @@ @]}
    [] e.op = "drop" -> {[st EXCEPT !.cols[e.id].alive = FALSE]}
    [] e.op = "bump" -> {[st EXCEPT !.cols[e.id].ver = @ + 1]}
    [] e.op = "reg"  -> If(e.done, {[st EXCEPT !.regs = Append(@, [id |-> e.id, labels |-> e.labels])]})
    [] e.op = "header" -> If(e.res, {[st EXCEPT !.hdrs = Append(@, e.h)]})
    [] e.op \in {"push", "pushadd", "del", "delinst"} -> If(Operate(st, e), {st})
    [] OTHER -> {}
=============================================================================
