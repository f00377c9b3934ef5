------------------------------ MODULE Exposer ------------------------------
(* The exposer: endpoints (paths) with their registered collectables, their *)
(* authentication and their self-metrics.  Step(st, e): the states after    *)
(* event e, which carries arguments and observed results; {} if the results *)
(* are not allowed.  Used by MCExposer (exploration, generation of scripts)  *)
(* and ExposerTrace (validation of recorded sequential executions).          *)
EXTENDS Base64, AcceptEncoding, FiniteSets, SequencesExt, TLC

Elems(s) == {s[i] : i \in 1..Len(s)}
If(c, S) == IF c THEN S ELSE {}

EmptyServer == [eps |-> <<>>, cols |-> <<>>]

(* eps: path -> [cols, auth, scr, bytes]; cols: id -> how often it was       *)
(*   registered since its last removal; auth is <<>> or                      *)
(*   <<[cb, realm, ok]>> with ok the accepted pairs of user and password     *)
(* cols: id -> [n, ver, alive]: number of families and current value         *)

NewEndpoint == [cols |-> <<>>, auth |-> <<>>, scr |-> 0, bytes |-> 0]

With(st, u) == IF u \in DOMAIN st.eps THEN st ELSE [st EXCEPT !.eps = @ @@ (u :> NewEndpoint)]

IsPrefixOf(u, p) == Len(u) <= Len(p) /\ SubSeq(p, 1, Len(u)) = u

(* A request belongs to the endpoint of its path; a path without endpoint    *)
(* to one that it extends (left to the web server: any).                     *)
Belongs(S, path) == IF path \in S THEN {path} ELSE {u \in S : IsPrefixOf(u, path)}

Secured(st) == {u \in DOMAIN st.eps : st.eps[u].auth # <<>>}

(* ------------------------------------------------------------------------ *)
(* Basic credentials of an Authorization header                              *)

BasicPrefix == <<66, 97, 115, 105, 99, 32>>      \* "Basic "
Colon == 58

HasBasic(h) == IsPrefixOf(BasicPrefix, h)
Encoded(h) == SubSeq(h, Len(BasicPrefix) + 1, Len(h))
ColonAt(t) == IF \E i \in 1..Len(t) : t[i] = Colon
              THEN CHOOSE i \in 1..Len(t) : t[i] = Colon /\ \A j \in 1..(i - 1) : t[j] # Colon
              ELSE 0

(* <<>> or <<[u, p]>>; h: <<>> without header, else <<header value>>          *)
Credentials(h) ==
  IF h = <<>> THEN <<>>
  ELSE IF ~HasBasic(h[1]) THEN <<>>
  ELSE IF ~WellFormed(Encoded(h[1])) THEN <<>>
  ELSE LET t == Decode(Encoded(h[1]))
           i == ColonAt(t)
       IN IF i = 0 THEN <<>>
          ELSE <<[u |-> SubSeq(t, 1, i - 1), p |-> SubSeq(t, i + 1, Len(t))]>>

(* ------------------------------------------------------------------------ *)
(* scrapes                                                                   *)

Reported(st, u) ==
  {<<c, st.cols[c].ver, j>> : c \in {x \in DOMAIN st.eps[u].cols : st.cols[x].alive}, j \in 0..20}

Tokens(st, u) == {t \in Reported(st, u) : t[3] < st.cols[t[1]].n}

(* the response carries exactly these tokens (those of a collectable that    *)
(* was registered several times at least once and at most that often)        *)
Carries(st, u, r) ==
  /\ r.text
  /\ Elems(r.toks) = Tokens(st, u)
  /\ \/ Len(r.toks) = Cardinality(Tokens(st, u))
     \/ \A t \in Tokens(st, u) :
          Cardinality({i \in 1..Len(r.toks) : r.toks[i] = t}) <= st.eps[u].cols[t[1]]

SelfMetrics(st, u, r) ==
  /\ r.scr = st.eps[u].scr
  /\ r.bytes = st.eps[u].bytes
  /\ r.cnt = st.eps[u].scr
  /\ r.sumok

TextPlain == <<116, 101, 120, 116, 47, 112, 108, 97, 105, 110>>     \* "text/plain"

Framed(accept, r) ==
  /\ r.framed                         \* header, then exactly Content-Length bytes
  /\ r.clen = r.sent
  /\ IsPrefixOf(TextPlain, r.ctype)
  /\ r.enc = 1 => OffersGzip(accept) # "no"
  /\ r.enc = 0 => OffersGzip(accept) # "yes"
  /\ r.enc \in {0, 1}

Scraped(st, u, r) == {[st EXCEPT !.eps[u].scr = @ + 1, !.eps[u].bytes = @ + r.sent]}

(* requests that are answered by endpoint u                                  *)
Scrape(st, u, e) ==
  LET r == e.r IN
  If(r.status = 200 /\ Framed(e.accept, r) /\ Carries(st, u, r) /\ SelfMetrics(st, u, r), Scraped(st, u, r))

HasInside(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t

Quote == <<34>>
Backslash == <<92>>
RECURSIVE Escaped(_)
Escaped(s) == IF s = <<>> THEN <<>>
              ELSE (IF s[1] \in {34, 92} THEN Backslash ELSE <<>>) \o <<s[1]>> \o Escaped(Tail(s))
Quoted(s) == Quote \o (IF \E i \in 1..Len(s) : s[i] \in {34, 92} THEN Escaped(s) ELSE s) \o Quote
RealmIs(realm) == <<114, 101, 97, 108, 109, 61>> \o Quoted(realm)   \* realm="..."

Refused(st, a, e) ==
  LET r == e.r IN
  If(/\ r.status = 401
     /\ IsPrefixOf(BasicPrefix, r.www) /\ HasInside(r.www, RealmIs(a.realm))
     /\ r.toks = <<>> /\ r.scr = -1 /\ r.asked = <<>> /\ ~r.reveals,
     {st})

NotServed(st, e) == If(e.r.status \notin ({0} \cup (200..299)) /\ e.r.toks = <<>> /\ e.r.asked = <<>> /\ e.r.cbs = <<>>, {st})

Answer(st, e) == UNION {Scrape(st, u, e) : u \in Belongs(DOMAIN st.eps, e.path)}

StepGet(st, e) ==
  IF Belongs(DOMAIN st.eps, e.path) = {} THEN NotServed(st, e)
  ELSE IF Belongs(Secured(st), e.path) = {} THEN If(e.r.cbs = <<>>, Answer(st, e))
  ELSE UNION {
    LET a == st.eps[s].auth[1]
        c == Credentials(e.auth)
    IN IF c = <<>> THEN If(e.r.cbs = <<>>, Refused(st, a, e))
       ELSE If(e.r.cbs = <<[cb |-> a.cb, u |-> c[1].u, p |-> c[1].p]>>,
               IF <<c[1].u, c[1].p>> \in a.ok THEN Answer(st, e) ELSE Refused(st, a, e))
    : s \in Belongs(Secured(st), e.path)}

(* requests for one path at the same time (and no others): each is answered   *)
(* completely, and all are accounted for in the end (a scrape may see the      *)
(* self-metrics before earlier ones are)                                       *)
RECURSIVE SumSent(_)
SumSent(rs) == IF rs = <<>> THEN 0 ELSE rs[1].sent + SumSent(Tail(rs))

StepBurst(st, e) ==
  LET u == e.path
      k == Len(e.rs)
      ok(r) == /\ r.status = 200 /\ Framed(r.accept, r) /\ Carries(st, u, r) /\ r.sumok
               /\ r.scr \in 0 .. (st.eps[u].scr + k - 1)
               /\ r.cnt \in 0 .. (st.eps[u].scr + k - 1)
               /\ r.bytes \in 0 .. (st.eps[u].bytes + SumSent(e.rs) - r.sent)
  IN If(u \in DOMAIN st.eps /\ \A i \in 1..k : ok(e.rs[i]),
        {[st EXCEPT !.eps[u].scr = @ + k, !.eps[u].bytes = @ + SumSent(e.rs)]})

Step(st, e) ==
  CASE e.op = "col"  -> {[st EXCEPT !.cols = (e.id :> [n |-> e.n, ver |-> 1, alive |-> TRUE]) @@ @]}
    [] e.op = "drop" -> {[st EXCEPT !.cols[e.id].alive = FALSE]}
    [] e.op = "bump" -> {[st EXCEPT !.cols[e.id].ver = @ + 1]}
    [] e.op = "reg"  -> LET s == With(st, e.uri) IN If(e.done, {[s EXCEPT !.eps[e.uri].cols =
                            (e.id :> (IF e.id \in DOMAIN @ THEN @[e.id] + 1 ELSE 1)) @@ @]})
    [] e.op = "rem"  -> LET s == With(st, e.uri) IN If(e.done, {[s EXCEPT !.eps[e.uri].cols =
                            [c \in DOMAIN @ \ {e.id} |-> @[c]]]})
    [] e.op = "auth" -> LET s == With(st, e.uri) IN
                        If(e.done, {[s EXCEPT !.eps[e.uri].auth = <<[cb |-> e.cb, realm |-> e.realm, ok |-> Elems(e.ok)]>>]})
    [] e.op = "get"  -> StepGet(st, e)
    [] e.op = "burst" -> StepBurst(st, e)
    [] OTHER         -> {}
=============================================================================
