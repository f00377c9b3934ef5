----------------------------- MODULE MCExposer -----------------------------
(* Exploration of Exposer within small constants; every transition is        *)
(* printed as the script that reaches it, for replay into a real exposer.     *)
(* Responses are left out of the scripts (the trace validation supplies       *)
(* them); the model produces the allowed ones itself.                         *)
EXTENDS Exposer, Json

CONSTANTS MaxCalls, Mode      \* Mode: "collect" | "auth"

VARIABLES st, hist
vars == <<st, hist>>

A == <<47, 97>>  AB == <<47, 97, 47, 98>>  B == <<47, 98>>       \* /a /a/b /b
U == <<117>>  P == <<112>>  Q == <<112, 58>>                      \* u p p:
Header(u, p) == <<BasicPrefix \o Encode(u \o <<Colon>> \o p, Standard)>>
Headers == {<<>>, Header(U, P), Header(U, Q), <<BasicPrefix \o U>>, <<U>>}
Ids == {1, 2}

Calls ==
  IF Mode = "collect" THEN
    {[op |-> k, id |-> i, uri |-> u] : k \in {"reg", "rem"}, i \in Ids, u \in {A, B}}
    \cup {[op |-> k, id |-> i] : k \in {"drop", "bump"}, i \in {1}}
    \cup {[op |-> "get", path |-> u, auth |-> <<>>, accept |-> <<>>] : u \in {A, B}}
  ELSE
    {[op |-> "reg", id |-> 1, uri |-> u] : u \in {A, AB}}
    \cup {[op |-> "auth", cb |-> c, realm |-> IF c = 1 THEN U ELSE P, uri |-> u, ok |-> <<<<U, IF c = 1 THEN P ELSE Q>>>>] : c \in {1, 2}, u \in {A, AB}}
    \cup {[op |-> "get", path |-> u, auth |-> h, accept |-> <<>>] : u \in {A, AB}, h \in Headers}

MaxTimes == IF Mode = "collect" THEN 2 ELSE 1

Allowed(c) ==
  /\ c.op = "drop" => st.cols[c.id].alive
  /\ c.op = "rem" => c.uri \in DOMAIN st.eps
  /\ (c.op = "reg" /\ c.uri \in DOMAIN st.eps) =>
       (IF c.id \in DOMAIN st.eps[c.uri].cols THEN st.eps[c.uri].cols[c.id] < MaxTimes ELSE TRUE)
  /\ c.op = "bump" => st.cols[c.id].ver = 1 /\ st.cols[c.id].alive

NoReply == [status |-> 0, framed |-> TRUE, clen |-> 1, sent |-> 1, ctype |-> TextPlain, enc |-> 0, text |-> TRUE, toks |-> <<>>,
            scr |-> -1, bytes |-> -1, cnt |-> -1, sumok |-> TRUE, www |-> <<>>, cbs |-> <<>>, asked |-> <<>>, reveals |-> FALSE]

SetToSeqOf(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => s[i] # s[j]

(* the responses the model considers: 404, 401 and complete scrapes of any    *)
(* endpoint, with or without a callback having been asked                      *)
Replies(c) ==
  LET asked == {<<>>} \cup {<<[cb |-> b, u |-> x.u, p |-> x.p]>> : b \in {1, 2}, x \in Elems(Credentials(c.auth))} IN
  {[NoReply EXCEPT !.status = 404]}
  \cup {[NoReply EXCEPT !.status = 401, !.www = BasicPrefix \o RealmIs(r), !.cbs = k] : r \in {U, P}, k \in asked}
  \cup {[NoReply EXCEPT !.status = 200, !.toks = SetToSeqOf(Tokens(st, u)), !.scr = st.eps[u].scr, !.cnt = st.eps[u].scr,
                        !.bytes = st.eps[u].bytes, !.cbs = k] : u \in DOMAIN st.eps, k \in asked}

Events(c) == CASE c.op = "get" -> {c @@ [r |-> r] : r \in Replies(c)}
               [] c.op \in {"reg", "rem", "auth"} -> {c @@ [done |-> TRUE]}
               [] OTHER -> {c}

Init == /\ st = [EmptyServer EXCEPT !.cols = [i \in Ids |-> [n |-> i, ver |-> 1, alive |-> TRUE]]]
        /\ hist = <<>>

Next == /\ Len(hist) < MaxCalls
        /\ \E c \in Calls : /\ Allowed(c)
                            /\ \E e \in Events(c) : st' \in Step(st, e)
                            /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_vars

Abstract == [u \in DOMAIN st.eps |-> [st.eps[u] EXCEPT !.bytes = 0, !.scr = IF @ > 1 THEN 2 ELSE @]]
View == <<Abstract, st.cols, Len(hist) = MaxCalls>>
Emit == PrintT(<<"SEQ", ToJson(hist')>>)

(* every request has an allowed answer *)
Total == \A c \in Calls : (c.op = "get") => \E e \in Events(c) : Step(st, e) # {}
(* C21: with authentication, no answer without accepted credentials           *)
Gated == \A c \in Calls : (c.op = "get" /\ Belongs(Secured(st), c.path) # {}) =>
           \A r \in Replies(c) : (r.status = 200 /\ Step(st, c @@ [r |-> r]) # {}) =>
             \E s \in Secured(st) : \E k \in 1..Len(Credentials(c.auth)) :
               <<Credentials(c.auth)[k].u, Credentials(c.auth)[k].p>> \in st.eps[s].auth[1].ok
(* C24: the self-metrics agree with the history                               *)
Counts == \A u \in DOMAIN st.eps : st.eps[u].scr = st.eps[u].bytes
(* C19: endpoints only for registered paths                                   *)
Paths == \A u \in DOMAIN st.eps : \E i \in 1..Len(hist) : hist[i].op \in {"reg", "auth"} /\ hist[i].uri = u
Inv == Total /\ Gated /\ Counts /\ Paths
=============================================================================
