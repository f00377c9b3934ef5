----------------------------- MODULE GatewayConc -----------------------------
(* A gateway client used by several threads at once.  Step(st, e): the states   *)
(* after event e of an execution's log; {} if e may not happen.  Events:         *)
(*  call n op id ..   an operation begins              ret n res   .. its result is there *)
(*  cs id g / ce id g Collect() number g of a collectable begins / ends            *)
(*  req q ..          request q has arrived at the server                           *)
(*  ans q out         the server answers it                                          *)
(*  gone id           a collectable is destroyed;   end   the execution is over       *)
(* Every collection's data carries its number g, every registration has a label of     *)
(* its own.  Which pending operation a request belongs to is not visible: Step           *)
(* tries all of them.                                                                    *)
EXTENDS GroupKey

Elements(s) == {s[i] : i \in 1..Len(s)}
If(c, S) == IF c THEN S ELSE {}

(* cfg: [job, labels, auth]                                                    *)
(* regs: call number of a registration -> [id, labels, done]                    *)
(* hdrs: set of [n, h, done]                                                     *)
(* live: not dropped; gone: destroyed; size: id -> families                       *)
(* col: g -> [id, open, for (operations pending when it began)]; used: numbers sent *)
(* ops: n -> [op, async, must, may, sent, bad, hmust]: sent: registrations; bad: outcomes *)
(* that are no success;  open: q -> n, requests not answered yet                     *)
Fresh(cfg) == [cfg |-> cfg, regs |-> <<>>, hdrs |-> {}, live |-> {}, gone |-> {}, size |-> <<>>, col |-> <<>>,
               used |-> {}, ops |-> <<>>, calls |-> <<>>, open |-> <<>>]

Pushes == {"push", "pushadd"}
Deletes == {"del", "delinst"}
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
PushOps(st) == {n \in DOMAIN st.ops : st.ops[n].op \in Pushes}

Begin(st, e) ==
  LET s == [st EXCEPT !.calls = (e.n :> e) @@ @]
      pend == PushOps(s) IN
  CASE e.op = "col" -> [s EXCEPT !.size = (e.id :> e.fams) @@ @, !.live = @ \cup {e.id}]
    [] e.op = "reg" -> [s EXCEPT !.regs = (e.n :> [id |-> e.id, labels |-> e.labels, done |-> FALSE]) @@ @]
    [] e.op = "drop" -> [s EXCEPT !.live = @ \ {e.id},
                                  !.ops = [n \in DOMAIN @ |-> [@[n] EXCEPT !.must = {r \in @ : s.regs[r].id # e.id}]]]
    [] e.op = "header" -> [s EXCEPT !.hdrs = @ \cup {[n |-> e.n, h |-> e.h, done |-> FALSE]}]
    [] e.op \in Pushes \cup Deletes ->
         [s EXCEPT !.ops = (e.n :> [op |-> e.op, async |-> e.async, sent |-> {}, bad |-> {},
                                    must |-> {r \in DOMAIN s.regs : s.regs[r].done /\ s.regs[r].id \in s.live},
                                    hmust |-> {x.h : x \in {y \in s.hdrs : y.done}}]) @@ @]
    [] OTHER -> s

Good(out) == out.k = "status" /\ out.s >= 100 /\ out.s < 400
Tells(res, out) == IF out.k = "status" THEN res = out.s ELSE res < 0

OpenFor(st, n) == {q \in DOMAIN st.open : st.open[q] = n}

Result(st, o, res) ==
  CASE o.op \in Deletes -> o.sent = {0} /\ \E b \in o.bad : Tells(res, b)
    [] o.bad = {} -> res = 200 /\ o.must \subseteq o.sent
    [] ~o.async -> \E b \in o.bad : Tells(res, b)
    [] OTHER -> o.must \subseteq o.sent /\ \E b \in o.bad : Tells(res, b)

Finish(st, e) ==
  LET c == st.calls[e.n]
      s == [st EXCEPT !.calls = Without(@, e.n)] IN
  CASE c.op = "reg" -> {[s EXCEPT !.regs[e.n].done = TRUE]}
    [] c.op = "header" -> If(e.res = 1, {[s EXCEPT !.hdrs = {IF x.n = e.n THEN [x EXCEPT !.done = TRUE] ELSE x : x \in @}]})
    [] c.op \in Pushes \cup Deletes ->
         If(OpenFor(st, e.n) = {} /\ Result(st, st.ops[e.n], e.res), {[s EXCEPT !.ops = Without(@, e.n)]})
    [] OTHER -> {s}

(* the headers every request carries *)
Decorated(st, o, r) ==
  LET got == Elements(r.hdrs) IN
  /\ r.ctype = "ok" /\ r.auth = st.cfg.auth
  /\ Len(r.hdrs) = Cardinality(got)
  /\ o.hmust \subseteq got /\ got \subseteq {x.h : x \in st.hdrs}

JobKey(st) == {<<Job, st.cfg.job>>}
FullKey(st, labels) == JobKey(st) \cup Elements(st.cfg.labels) \cup Elements(labels)
Method(op) == CASE op = "push" -> "POST" [] op = "pushadd" -> "PUT" [] OTHER -> "DELETE"

Is(st, r, key) == IsKey(Key(<<>>, r.path), key)

(* the ways request r can belong to operation n *)
Sent(st, n, r) ==
  LET o == st.ops[n] IN
  IF ~(r.m = Method(o.op) /\ Decorated(st, o, r) /\ r.text) THEN {}
  ELSE IF o.op \in Deletes
  THEN If(/\ o.sent = {} /\ r.toks = <<>>
          /\ Is(st, r, IF o.op = "del" THEN JobKey(st) ELSE FullKey(st, <<>>)),
          {[st EXCEPT !.ops[n].sent = {0}, !.open = (r.q :> n) @@ @]})
  ELSE IF r.toks = <<>> \/ (~o.async /\ (o.bad # {} \/ OpenFor(st, n) # {})) THEN {}
  ELSE LET g == r.toks[1][2] IN
       IF g \notin DOMAIN st.col \/ g \in st.used THEN {}
       ELSE LET c == st.col[g]
                mine == {x \in DOMAIN st.regs : x \notin o.sent /\ st.regs[x].id = c.id /\ Is(st, r, FullKey(st, st.regs[x].labels))}
            IN If(/\ ~c.open /\ n \in c.for
                  /\ r.toks = [j \in 1..st.size[c.id] |-> <<c.id, g, j - 1>>],
                  {[st EXCEPT !.ops[n].sent = @ \cup {x}, !.used = @ \cup {g}, !.open = (r.q :> n) @@ @] : x \in mine})

Answer(st, q, out) ==
  LET n == st.open[q] IN
  {[st EXCEPT !.open = Without(@, q), !.ops[n].bad = IF Good(out) /\ st.ops[n].op \in Pushes THEN @ ELSE @ \cup {out}]}

Step(st, e) ==
  CASE e.ev = "call" -> {Begin(st, e)}
    [] e.ev = "ret" -> If(e.n \in DOMAIN st.calls, Finish(st, e))
    [] e.ev = "cs" -> If(/\ e.id \notin st.gone /\ e.g \notin DOMAIN st.col
                         /\ PushOps(st) # {} /\ \E x \in DOMAIN st.regs : st.regs[x].id = e.id,
                         {[st EXCEPT !.col = (e.g :> [id |-> e.id, open |-> TRUE, for |-> PushOps(st)]) @@ @]})
    [] e.ev = "ce" -> If(e.id \notin st.gone, {[st EXCEPT !.col[e.g].open = FALSE]})
    [] e.ev = "req" -> UNION {Sent(st, n, e) : n \in DOMAIN st.ops}
    [] e.ev = "ans" -> If(e.q \in DOMAIN st.open, Answer(st, e.q, e.out))
    [] e.ev = "gone" -> If(e.id \notin st.live /\ \A g \in DOMAIN st.col : ~(st.col[g].id = e.id /\ st.col[g].open),
                           {[st EXCEPT !.gone = @ \cup {e.id}]})
    [] e.ev = "end" -> If(/\ st.calls = <<>> /\ st.ops = <<>> /\ st.open = <<>>
                          /\ \A g \in DOMAIN st.col : ~st.col[g].open
                          /\ \A i \in DOMAIN st.size : i \in st.live \/ i \in st.gone, {st})
    [] OTHER -> {}
=============================================================================
