------------------------------ MODULE MCGateway ------------------------------
(* Exploration of Gateway within small constants; every transition is printed   *)
(* as the script that reaches it, with the server's answers, for replay.         *)
EXTENDS Gateway, Json

CONSTANTS MaxCalls

VARIABLES st, hist
vars == <<st, hist>>

J == <<106>>  L == <<105>>  V == <<49>>  C == <<99>>
Ids == {1, 2}
Cfg == [base |-> <<>>, job |-> J, labels |-> <<<<L, V>>>>, auth |-> <<>>, ua |-> <<>>]
Ok == [k |-> "status", s |-> 200]
Bad == [k |-> "status", s |-> 503]
Fault == [k |-> "fault", s |-> 0]
Plans == {<<Ok, Ok>>, <<Bad, Ok>>, <<Ok, Fault>>, <<Fault, Bad>>}
X1 == <<<<88, 45, 65>>, <<49>>>>  X2 == <<<<88, 45, 66>>, <<50>>>>

Calls ==
  {[op |-> "reg", id |-> i, labels |-> IF i = 1 THEN <<>> ELSE <<<<C, V>>>>] : i \in Ids}
  \cup {[op |-> "drop", id |-> 1]}
  \cup {[op |-> "header", h |-> X1]}
  \cup {[op |-> o, plan |-> p, async |-> a, down |-> FALSE] : o \in {"push", "pushadd"}, p \in Plans, a \in BOOLEAN}
  \cup {[op |-> o, plan |-> p, async |-> a, down |-> FALSE] : o \in {"del", "delinst"}, p \in {<<Ok>>, <<Bad>>, <<Fault>>}, a \in BOOLEAN}
  \cup {[op |-> o, plan |-> <<>>, async |-> FALSE, down |-> TRUE] : o \in {"push", "del"}}

Allowed(c) ==
  /\ c.op = "drop" => st.cols[c.id].alive
  /\ c.op = "reg" => /\ \A k \in 1..Len(st.regs) : st.regs[k].id # c.id
                     /\ st.cols[c.id].alive
  /\ c.op = "header" => st.hdrs = <<>>

(* a request as a correct client sends it *)
Join(s) == IF s = <<>> THEN <<>> ELSE <<Slash>> \o s
RECURSIVE PathOf(_)
PathOf(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE x \in S : TRUE IN Join(p[1]) \o Join(p[2]) \o PathOf(S \ {p})
Request(x, out) ==
  [m |-> x.m, path |-> Metrics \o Join(Job) \o Join(J) \o PathOf(x.key \ JobKey(st)), ctype |-> <<TextFormat \o <<59>> \o TextFormatVersion>>,
   auth |-> <<>>, ua |-> <<>>, hdrs |-> st.hdrs, text |-> TRUE, toks |-> x.body, reused |-> FALSE, out |-> out]

Fails(c, n) == {k \in 1..n : ~Good(c.plan[k])}
First(S) == CHOOSE k \in S : \A j \in S : k <= j
ResultOf(out) == IF out.k = "status" THEN out.s ELSE -52

(* the execution of a call by a correct client *)
Run(c) ==
  IF c.op \notin {"push", "pushadd", "del", "delinst"} THEN
    (CASE c.op = "reg" -> c @@ [done |-> TRUE] [] c.op = "header" -> c @@ [res |-> TRUE] [] OTHER -> c)
  ELSE LET xs == Expected(st, c.op)
           n == Len(xs)
           bad == Fails(c, n)
           sent == IF c.async \/ bad = {} THEN n ELSE First(bad)
       IN IF c.down THEN c @@ [reqs |-> <<>>, res |-> IF n = 0 THEN 200 ELSE -7]
          ELSE c @@ [reqs |-> [k \in 1..sent |-> Request(xs[k], c.plan[k])],
                     res |-> IF bad # {} THEN ResultOf(c.plan[First(bad)]) ELSE IF c.op \in {"del", "delinst"} THEN c.plan[1].s ELSE 200]

Init == /\ st = [Created(Cfg) EXCEPT !.cols = [i \in Ids |-> [n |-> i, ver |-> 1, alive |-> TRUE]]]
        /\ hist = <<>>
Next == /\ Len(hist) < MaxCalls
        /\ \E c \in Calls : /\ Allowed(c)
                            /\ st' \in Step(st, Run(c))
                            /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_vars

View == <<st, Len(hist)>>
Emit == PrintT(<<"SEQ", ToJson(hist')>>)

(* a correct client is never refused; other results and other requests are     *)
Sends == \A c \in Calls : Allowed(c) => Step(st, Run(c)) # {}
Truthful == \A c \in Calls : (Allowed(c) /\ "plan" \in DOMAIN c) =>
              LET e == Run(c) IN \A r \in {200, 503, -7, -52} \ {e.res} :
                Step(st, [e EXCEPT !.res = r]) # {} => (r < 0 /\ e.res < 0) \/ (c.async /\ \E k \in 1..Len(e.reqs) : Tells(r, e.reqs[k].out))
Nothing_lost == \A c \in Calls : (Allowed(c) /\ "plan" \in DOMAIN c) =>
                  LET e == Run(c) IN e.reqs # <<>> => Step(st, [e EXCEPT !.reqs = Tail(@)]) = {}
Inv == Sends /\ Truthful /\ Nothing_lost
=============================================================================
