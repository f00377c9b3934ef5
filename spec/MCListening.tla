---------------------------- MODULE MCListening ----------------------------
(* Exploration of Listening: two exposers, two ports (and any), a stranger who  *)
(* takes ports, one path.  Every transition is printed as the script that        *)
(* reaches it, for replay into real exposers.                                     *)
EXTENDS Listening, Json

CONSTANT MaxCalls

VARIABLES st, hist
vars == <<st, hist>>

A == [ip |-> 1, port |-> 1]  B == [ip |-> 1, port |-> 2]
Asked(a) == [ip |-> a.ip, port |-> a.port, ok |-> TRUE]
Any_ == [ip |-> 1, port |-> 0, ok |-> TRUE]
Bad == [ip |-> 1, port |-> 0, ok |-> FALSE]
Lists == {<<Asked(A)>>, <<Asked(B), Asked(A)>>, <<Any_>>, <<Asked(A), Bad>>, <<Asked(A), Asked(A)>>, <<Any_, Asked(B)>>}
U == <<47, 97>>            \* /a
X == {1, 2}

Exists(x) == x \in DOMAIN st.xs
Live(x) == IF Exists(x) THEN st.xs[x].up ELSE FALSE

Calls ==
  {[op |-> "new", x |-> x, asked |-> a, threads |-> 1] : x \in X, a \in Lists}
  \cup {[op |-> k, x |-> x] : k \in {"destroy", "ports"}, x \in X}
  \cup {[op |-> k, at |-> A] : k \in {"hold", "unhold", "probe"}}
  \cup {[op |-> k, x |-> x, id |-> 1, uri |-> U] : k \in {"reg", "rem"}, x \in X}
  \cup {[op |-> "get", at |-> a, path |-> U, auth |-> <<>>, accept |-> <<>>] : a \in {A, B}}

Allowed(c) ==
  CASE c.op = "new" -> ~Exists(c.x) /\ (c.x = 2 => Exists(1))
    [] c.op \in {"destroy", "ports"} -> Live(c.x)
    [] c.op = "hold" -> \A a \in Taken(st) : ~Overlap(a, c.at)
    [] c.op = "unhold" -> c.at \in st.held
    [] c.op = "reg" -> IF Live(c.x) THEN (U \in DOMAIN st.xs[c.x].eps => 1 \notin DOMAIN st.xs[c.x].eps[U].cols) ELSE FALSE
    [] c.op = "rem" -> IF Live(c.x) THEN U \in DOMAIN st.xs[c.x].eps ELSE FALSE
    [] OTHER -> TRUE

NoReply == [status |-> 0, framed |-> TRUE, clen |-> 1, sent |-> 1, ctype |-> TextPlain, enc |-> 0, text |-> TRUE, toks |-> <<>>,
            scr |-> -1, bytes |-> -1, cnt |-> -1, sumok |-> TRUE, www |-> <<>>, cbs |-> <<>>, asked |-> <<>>, reveals |-> FALSE]
Replies == {NoReply, [NoReply EXCEPT !.status = 404]}
           \cup {[NoReply EXCEPT !.status = 200, !.toks = t, !.scr = n, !.cnt = n, !.bytes = n] : t \in {<<>>, <<<<1, 1, 0>>>>}, n \in 0..MaxCalls}

Events(c) ==
  CASE c.op = "new" -> {c @@ [ok |-> FALSE, ports |-> <<>>]}
                       \cup {c @@ [ok |-> TRUE, ports |-> [i \in 1..Len(c.asked) |-> IF c.asked[i].port # 0 THEN c.asked[i].port ELSE 10 + c.x]]}
    [] c.op = "ports" -> {c @@ [res |-> [i \in 1..Len(st.xs[c.x].at) |-> st.xs[c.x].at[i].port]]}
    [] c.op = "probe" -> {c @@ [free |-> f] : f \in BOOLEAN}
    [] c.op = "get" -> {c @@ [r |-> r] : r \in Replies}
    [] c.op \in {"destroy", "reg", "rem"} -> {c @@ [done |-> TRUE]}
    [] OTHER -> {c}

Init == st = [Nothing EXCEPT !.cols = (1 :> [n |-> 1, ver |-> 1, alive |-> TRUE])] /\ hist = <<>>
Next == /\ Len(hist) < MaxCalls
        /\ \E c \in Calls : /\ Allowed(c)
                            /\ \E e \in Events(c) : st' \in StepX(st, e)
                            /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_vars

View == <<st, Len(hist) = MaxCalls>>
Emit == PrintT(<<"SEQ", ToJson(hist')>>)

(* every call has a result *)
Total == \A c \in Calls : Allowed(c) => \E e \in Events(c) : StepX(st, e) # {}
(* an address belongs to one exposer at most, and not to a stranger as well *)
Disjoint == \A a \in {A, B} : Cardinality(Owners(st, a)) <= 1 /\ (Owners(st, a) # {} => a \notin st.held)
(* what an exposer answers depends on itself alone *)
Own == \A x \in DOMAIN st.xs : st.xs[x].eps # <<>> => \E i \in 1..Len(hist) : hist[i].op \in {"reg", "rem"} /\ hist[i].x = x
Inv == Total /\ Disjoint /\ Own
=============================================================================
