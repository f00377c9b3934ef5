--------------------------- MODULE AcceptEncoding ---------------------------
(* Does an Accept-Encoding header (RFC 9110, section 12.5.3) offer gzip?     *)
(* Headers are sequences of bytes.                                           *)
EXTENDS Naturals, Sequences

Blank == {32, 9}
Gzip == <<103, 122, 105, 112>>
XGzip == <<120, 45>> \o Gzip
Star == <<42>>
Comma == 44
Semicolon == 59

LowerByte(b) == IF b \in 65..90 THEN b + 32 ELSE b
Lower(s) == [i \in 1..Len(s) |-> LowerByte(s[i])]

Trim(s) ==
  LET I == {i \in 1..Len(s) : s[i] \notin Blank}
  IN IF I = {} THEN <<>>
     ELSE SubSeq(s, CHOOSE i \in I : \A j \in I : i <= j, CHOOSE i \in I : \A j \in I : i >= j)

(* the parts between the separators c                                        *)
Parts(s, c) ==
  LET n == Len(s)
      B == {0, n + 1} \cup {i \in 1..n : s[i] = c}
      next(b) == CHOOSE x \in B : x > b /\ \A y \in B : y > b => x <= y
  IN {SubSeq(s, b + 1, next(b) - 1) : b \in B \ {n + 1}}

First(s, c) ==
  LET I == {i \in 1..Len(s) : s[i] = c}
  IN IF I = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in I : \A j \in I : i <= j) - 1)

Coding(item) == Lower(Trim(First(item, Semicolon)))

(* weight 0: "not acceptable"; without weight it is 1                        *)
IsWeight(p) == Len(p) >= 3 /\ p[1] = 113 /\ p[2] = 61
ZeroWeight(p) == \A i \in 3..Len(p) : p[i] \in {48, 46}
Refuses(item) == \E p \in Parts(item, Semicolon) : IsWeight(Lower(Trim(p))) /\ ZeroWeight(Trim(p))

(* accept: <<>> without header, else <<header value>>                        *)
(* "yes", "no", or "open" where the header leaves it to the server           *)
OffersGzip(accept) ==
  IF accept = <<>> THEN "no"
  ELSE LET items == Parts(accept[1], Comma)
           G == {x \in items : Coding(x) = Gzip}
       IN IF G = {} THEN IF \E x \in items : Coding(x) \in {Star, XGzip} THEN "open" ELSE "no"
          ELSE IF \A x \in G : Refuses(x) THEN "no"
          ELSE IF \E x \in G : Refuses(x) THEN "open"
          ELSE "yes"
=============================================================================
