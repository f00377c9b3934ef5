----------------------------- MODULE ExposerConc -----------------------------
(* The exposer used by several threads at once.  Step(st, e): the state after *)
(* event e of an execution's log ({} if e may not happen).  Calls and requests *)
(* have a beginning and an end in the log; between them they may take effect   *)
(* at any time.  Events:                                                        *)
(*  call n op ..      a registration call begins       ret n     .. has returned *)
(*  req q path u      a client sends a request          res q ..  .. has the answer *)
(*  (req: slow)       .. and does not read the answer before drain q                 *)
(*  quiet             nothing has happened for long: slow clients hold up nothing else *)
(*  cs id / ce id     Collect() of a collectable begins / ends                   *)
(*  as cb u / ae cb   an authentication callback begins (for user u) / ends      *)
(*  gone id           a collectable is destroyed                                  *)
(*  port free         the port has been probed;   end    the execution is over    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Elements(s) == {s[i] : i \in 1..Len(s)}
Allow(c, S) == IF c THEN S ELSE {}

(* up: "run" | "stopping" | "down"                                             *)
(* eps: paths with an endpoint, maybe: paths that may have one                  *)
(* in: pairs <<path, id>> registered; mid: in transition                        *)
(* n: id -> families, live: not dropped, gone: destroyed, busy: id -> collections *)
(* auth: path -> callbacks that may be in force (0: none), ok: pairs <<cb, u>>    *)
(* reqs: q -> [path, u, have, must, may, cbs, asked, late, slow]; calls: n -> call *)
Fresh == [up |-> "run", eps |-> {}, maybe |-> {}, in |-> {}, mid |-> {}, n |-> <<>>, live |-> {}, gone |-> {},
          busy |-> <<>>, auth |-> <<>>, ok |-> {}, reqs |-> <<>>, calls |-> <<>>, owed |-> {}]

Auths(st, p) == IF p \in DOMAIN st.auth THEN st.auth[p] ELSE {0}
SetAuth(st, p, S) == [st EXCEPT !.auth = (p :> S) @@ @]

MustSee(st, p) == {i \in DOMAIN st.n : <<p, i>> \in st.in /\ <<p, i>> \notin st.mid /\ i \in st.live}
MaySee(st, p)  == {i \in DOMAIN st.n : <<p, i>> \in st.in \cup st.mid /\ i \notin st.gone}

OnPath(st, p) == {q \in DOMAIN st.reqs : st.reqs[q].path = p}

UpdateReqs(st, Q, f(_)) == [st EXCEPT !.reqs = [q \in DOMAIN @ |-> IF q \in Q THEN f(@[q]) ELSE @[q]]]

Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Begin(st, e) ==
  LET s == [st EXCEPT !.calls = (e.n :> e) @@ @] IN
  CASE e.op = "col" -> [s EXCEPT !.n = (e.id :> e.fams) @@ @, !.live = @ \cup {e.id}, !.busy = (e.id :> 0) @@ @]
    [] e.op = "reg" -> LET add(r) == [r EXCEPT !.may = @ \cup {e.id}] IN
                       UpdateReqs([s EXCEPT !.mid = @ \cup {<<e.uri, e.id>>}, !.maybe = @ \cup {e.uri}], OnPath(s, e.uri), add)
    [] e.op = "rem" -> LET cut(r) == [r EXCEPT !.must = @ \ {e.id}] IN
                       UpdateReqs([s EXCEPT !.mid = @ \cup {<<e.uri, e.id>>}, !.maybe = @ \cup {e.uri}], OnPath(s, e.uri), cut)
    [] e.op = "drop" -> LET cut(r) == [r EXCEPT !.must = @ \ {e.id}] IN
                        UpdateReqs([s EXCEPT !.live = @ \ {e.id}], DOMAIN s.reqs, cut)
    [] e.op = "auth" -> LET add(r) == [r EXCEPT !.cbs = @ \cup {e.cb}] IN
                        UpdateReqs(SetAuth([s EXCEPT !.maybe = @ \cup {e.uri}, !.ok = @ \cup {<<e.cb, u>> : u \in Elements(e.ok)}],
                                           e.uri, Auths(s, e.uri) \cup {e.cb}), OnPath(s, e.uri), add)
    [] e.op = "destroy" ->
         LET sole(i) == {q \in DOMAIN s.reqs : i \in s.reqs[q].may} IN
         [s EXCEPT !.up = "stopping",
                   !.owed = UNION {sole(i) : i \in {j \in DOMAIN s.busy : s.busy[j] > 0 /\ Cardinality(sole(j)) = 1}}]
    [] OTHER -> s

Finish(st, e) ==
  LET c == st.calls[e.n]
      s == [st EXCEPT !.calls = Drop(@, e.n)] IN
  CASE c.op = "reg" -> [s EXCEPT !.in = @ \cup {<<c.uri, c.id>>}, !.mid = @ \ {<<c.uri, c.id>>}, !.eps = @ \cup {c.uri}]
    [] c.op = "rem" -> [s EXCEPT !.in = @ \ {<<c.uri, c.id>>}, !.mid = @ \ {<<c.uri, c.id>>}, !.eps = @ \cup {c.uri}]
    [] c.op = "auth" -> SetAuth([s EXCEPT !.eps = @ \cup {c.uri}], c.uri, {c.cb})
    [] c.op = "destroy" -> [s EXCEPT !.up = "down"]
    [] OTHER -> s

Send(st, e) ==
  [st EXCEPT !.reqs = (e.q :> [path |-> e.path, u |-> e.u, have |-> e.path \in st.eps, must |-> MustSee(st, e.path),
                               may |-> MaySee(st, e.path), cbs |-> Auths(st, e.path), asked |-> {},
                               late |-> st.up = "down", slow |-> e.slow]) @@ @]

(* may this request be answered with data? *)
Admitted(st, r) == 0 \in r.cbs \/ \E cb \in r.asked : <<cb, r.u>> \in st.ok

Complete(st, r, a) ==
  LET ids == {a.toks[i][1] : i \in 1..Len(a.toks)} IN
  /\ a.framed /\ a.text /\ a.selfs
  /\ r.must \subseteq ids /\ ids \subseteq r.may
  /\ Len(a.toks) = Cardinality(Elements(a.toks))
  /\ Elements(a.toks) = UNION {{<<i, j>> : j \in 0..(st.n[i] - 1)} : i \in ids}

AnswerAllowed(st, q, a) ==
  LET r == st.reqs[q] IN
  CASE a.status = 200 -> r.path \in st.maybe /\ Admitted(st, r) /\ Complete(st, r, a) /\ ~r.late
    [] OTHER -> /\ q \notin st.owed
                /\ a.toks = <<>> /\ ~a.reveals
                /\ \/ st.up # "run"
                   \/ a.status = 401 /\ \E cb \in r.cbs : cb # 0 /\ (r.u = 0 \/ (cb \in r.asked /\ <<cb, r.u>> \notin st.ok))
                   \/ a.status \notin {0, 401} /\ ~r.have

Step(st, e) ==
  CASE e.ev = "call" -> {Begin(st, e)}
    [] e.ev = "ret" -> Allow(e.ok, {Finish(st, e)})
    [] e.ev = "req" -> {Send(st, e)}
    [] e.ev = "drain" -> LET reads(r) == [r EXCEPT !.slow = FALSE] IN {UpdateReqs(st, {e.q}, reads)}
    [] e.ev = "quiet" -> Allow(/\ \A k \in DOMAIN st.calls : st.calls[k].op = "destroy"
                               /\ \A q \in DOMAIN st.reqs : st.reqs[q].slow \/ st.up # "run", {st})
    [] e.ev = "res" -> Allow(AnswerAllowed(st, e.q, e.a), {[st EXCEPT !.reqs = Drop(@, e.q), !.owed = @ \ {e.q}]})
    [] e.ev = "cs" -> Allow(/\ st.up # "down" /\ e.id \notin st.gone
                            /\ \E q \in DOMAIN st.reqs : e.id \in st.reqs[q].may /\ Admitted(st, st.reqs[q]),
                            {[st EXCEPT !.busy[e.id] = @ + 1]})
    [] e.ev = "ce" -> Allow(st.up # "down" /\ e.id \notin st.gone, {[st EXCEPT !.busy[e.id] = @ - 1]})
    [] e.ev = "as" -> LET Q == {q \in DOMAIN st.reqs : st.reqs[q].u = e.u /\ e.cb \in st.reqs[q].cbs}
                          ask(r) == [r EXCEPT !.asked = @ \cup {e.cb}] IN
                      Allow(st.up # "down" /\ e.u # 0 /\ Q # {}, {UpdateReqs(st, Q, ask)})
    [] e.ev = "ae" -> Allow(st.up # "down", {st})
    [] e.ev = "gone" -> Allow(st.busy[e.id] = 0 /\ e.id \notin st.live, {[st EXCEPT !.gone = @ \cup {e.id}]})
    [] e.ev = "port" -> Allow(e.free, {st})
    [] e.ev = "end" -> Allow(st.calls = <<>> /\ st.reqs = <<>> /\ \A i \in DOMAIN st.busy : st.busy[i] = 0, {st})
    [] OTHER -> {}
=============================================================================
