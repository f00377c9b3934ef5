----------------------------- MODULE Listening -----------------------------
(* Several exposers in one process: where each of them listens, and that each *)
(* behaves as the exposer of module Exposer, independently of all others.      *)
(* Step(st, e): the states after event e (arguments and observed results).     *)
EXTENDS Exposer

(* xs: exposer -> [up, at, threads, eps]: at is the sequence of its addresses  *)
(*   [ip, port] (ip 0: every address of the machine), eps as in Exposer        *)
(* held: addresses on which somebody else listens                              *)
(* cols: the collectables, which any exposer may report                         *)
Nothing == [xs |-> <<>>, held |-> {}, cols |-> <<>>]

Up(st) == {x \in DOMAIN st.xs : st.xs[x].up}
Taken(st) == st.held \cup UNION {Elems(st.xs[x].at) : x \in Up(st)}

Overlap(a, b) == a.port = b.port /\ (a.ip = b.ip \/ a.ip = 0 \/ b.ip = 0)

(* asked: sequence of [ip, port, ok]; port 0: any; not ok: no address at all    *)
Possible(st, asked) ==
  /\ asked # <<>>
  /\ \A i \in 1..Len(asked) : asked[i].ok
  /\ \A i \in 1..Len(asked) : asked[i].port # 0 =>
       /\ \A a \in Taken(st) : ~Overlap(asked[i], a)
       /\ \A j \in 1..Len(asked) : (j # i) => ~Overlap(asked[i], asked[j])

Got(asked, ports) == [i \in 1..Len(asked) |-> [ip |-> asked[i].ip, port |-> ports[i]]]

(* the ports that were asked for, and some that nobody used before              *)
PortsOk(st, asked, ports) ==
  /\ Len(ports) = Len(asked)
  /\ LET at == Got(asked, ports) IN
     /\ \A i \in 1..Len(asked) : IF asked[i].port = 0 THEN ports[i] > 0 ELSE ports[i] = asked[i].port
     /\ \A i \in 1..Len(asked) : \A a \in Taken(st) : ~Overlap(at[i], a)
     /\ \A i, j \in 1..Len(asked) : (i # j) => ~Overlap(at[i], at[j])

StepNew(st, e) ==
  IF Possible(st, e.asked) /\ e.threads > 0
  THEN If(e.ok /\ PortsOk(st, e.asked, e.ports),
          {[st EXCEPT !.xs = (e.x :> [up |-> TRUE, at |-> Got(e.asked, e.ports), threads |-> e.threads, eps |-> <<>>]) @@ @]})
  ELSE If(~e.ok, {st})

View_(st, x) == [eps |-> st.xs[x].eps, cols |-> st.cols]
Within(st, x, e) == {[st EXCEPT !.xs[x].eps = s.eps] : s \in Step(View_(st, x), e)}

Owners(st, a) == {x \in Up(st) : \E i \in 1..Len(st.xs[x].at) : Overlap(st.xs[x].at[i], a)}

StepAt(st, e) ==
  IF Owners(st, e.at) = {} THEN If(e.r.status = 0 /\ e.r.cbs = <<>> /\ e.r.asked = <<>>, {st})
  ELSE UNION {Within(st, x, e) : x \in Owners(st, e.at)}

StepX(st, e) ==
  CASE e.op = "new"     -> StepNew(st, e)
    [] e.op = "destroy" -> If(e.done, {[st EXCEPT !.xs[e.x].up = FALSE]})
    [] e.op = "ports"   -> If(e.res = [i \in 1..Len(st.xs[e.x].at) |-> st.xs[e.x].at[i].port], {st})
    [] e.op = "hold"    -> {[st EXCEPT !.held = @ \cup {e.at}]}
    [] e.op = "unhold"  -> {[st EXCEPT !.held = @ \ {e.at}]}
    \* a port that nobody should be using can be taken (by the harness)
    [] e.op = "probe"   -> If(e.free = (\A a \in Taken(st) : ~Overlap(a, e.at)), {st})
    \* n requests, all at work until every one that can be has been begun
    [] e.op = "together" -> If(e.busy >= (IF e.n < st.xs[e.x].threads THEN e.n ELSE st.xs[e.x].threads), {st})
    [] e.op = "get"     -> StepAt(st, e)
    [] e.op \in {"col", "drop", "bump"} -> {[st EXCEPT !.cols = s.cols] : s \in Step([eps |-> <<>>, cols |-> st.cols], e)}
    [] e.op \in {"reg", "rem", "auth"} -> Within(st, e.x, e)
    [] OTHER            -> {}
=============================================================================
