------------------------------ MODULE Decimal ------------------------------
(* Decimal texts and their distance to exact values.                       *)
(* A decimal is [k, neg, d, e]: k \in {"fin", "inf", "ninf", "nan", "bad"};*)
(* for "fin" the value is (-1)^neg * 0.d1 d2 d3 ... * 10^e, with d without *)
(* leading and trailing zeros (d = <<>> is zero). Every double is exactly  *)
(* such a decimal.                                                         *)
EXTENDS Integers, Sequences, SequencesExt

Dec0 == [k |-> "fin", neg |-> FALSE, d |-> <<>>, e |-> 0]
Bad  == [k |-> "bad", neg |-> FALSE, d |-> <<>>, e |-> 0]
Special(k) == [k |-> k, neg |-> FALSE, d |-> <<>>, e |-> 0]

Normalize(neg, d, e) ==
  LET lead  == {i \in 1..Len(d) : d[i] # 0}
  IN IF lead = {} THEN [Dec0 EXCEPT !.neg = neg]
     ELSE LET a == CHOOSE i \in lead : \A j \in lead : i <= j
              b == CHOOSE i \in lead : \A j \in lead : i >= j
          IN [k |-> "fin", neg |-> neg, d |-> SubSeq(d, a, b), e |-> e - (a - 1)]

(* automaton reading [+-]digits[.digits][(e|E)[+-]digits]; q is the state  *)
Scan(s) ==
  FoldLeft(LAMBDA a, c :
    LET dg == c \in 48..57
        v  == c - 48
    IN
    CASE a.q = "start" /\ c \in {43, 45} -> [a EXCEPT !.q = "sign", !.neg = (c = 45)]
      [] a.q \in {"start", "sign", "int"} /\ dg -> [a EXCEPT !.q = "int", !.d = Append(@, v), !.i = @ + 1]
      [] a.q = "int" /\ c = 46 -> [a EXCEPT !.q = "dot"]
      [] a.q \in {"dot", "frac"} /\ dg -> [a EXCEPT !.q = "frac", !.d = Append(@, v)]
      [] a.q \in {"int", "frac"} /\ c \in {69, 101} -> [a EXCEPT !.q = "e"]
      [] a.q = "e" /\ c \in {43, 45} -> [a EXCEPT !.q = "esign", !.eneg = (c = 45)]
      [] a.q \in {"e", "esign", "exp"} /\ dg -> [a EXCEPT !.q = "exp", !.x = IF @ > 100000 THEN @ ELSE @ * 10 + v]
      [] OTHER -> [a EXCEPT !.q = "bad"],
    [q |-> "start", neg |-> FALSE, d |-> <<>>, i |-> 0, eneg |-> FALSE, x |-> 0], s)

PInfText == <<43, 73, 110, 102>>    \* +Inf
NInfText == <<45, 73, 110, 102>>    \* -Inf
NanText  == <<78, 97, 110>>         \* Nan

OfText(s) ==
  IF s = PInfText THEN Special("inf")
  ELSE IF s = NInfText THEN Special("ninf")
  ELSE IF s = NanText THEN Special("nan")
  ELSE LET a == Scan(s) IN
       IF a.q \notin {"int", "frac", "exp"} THEN Bad
       ELSE Normalize(a.neg, a.d, a.i + (IF a.eneg THEN -a.x ELSE a.x))

(* an integer: optional minus, digits only *)
IntText(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : s[i] \in 48..57 \/ (i = 1 /\ s[i] = 45 /\ Len(s) > 1)

(* digit of x at weight 10^(E - p) *)
At(x, E, p) == LET i == p - (E - x.e) IN IF i >= 1 /\ i <= Len(x.d) THEN x.d[i] ELSE 0

(* |a - b| < 10^(E - n) for finite a, b of equal sign; positions 0..M      *)
(* cover all digits of both                                                *)
RECURSIVE Carry(_, _)
Carry(s, p) ==   \* adds one at position p (1-based index into s, most significant first)
  IF p = 0 THEN s
  ELSE IF s[p] = 9 THEN Carry([s EXCEPT ![p] = 0], p - 1) ELSE [s EXCEPT ![p] = @ + 1]

RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) ==
  IF i > Len(a) THEN FALSE
  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)

Larger(a, b) == IF a > b THEN a ELSE b

(* n: significant digits of the exact value v in which the text t may be   *)
(* off by less than one unit                                               *)
Close(t, v, n) ==
  CASE t.k = "bad" \/ v.k = "bad" -> FALSE
    [] t.k # "fin" \/ v.k # "fin" -> t.k = v.k
    [] v.d = <<>> -> t.d = <<>>
    [] t.d = <<>> \/ t.neg # v.neg -> FALSE
    [] t.e > v.e + 1 \/ t.e < v.e - 1 -> FALSE
    [] OTHER ->
         LET E == v.e + 2                 \* two leading positions for carries
             M == Larger(n + 2, Larger(Len(v.d) + 2, Len(t.d) + 3))
             T == [p \in 1..M |-> At(t, E, p)]
             V == [p \in 1..M |-> At(v, E, p)]
         IN LexLess(V, Carry(T, n + 2), 1) /\ LexLess(T, Carry(V, n + 2), 1)

Exact(t, v) == t.k = v.k /\ t.d = v.d /\ (v.d = <<>> \/ (t.neg = v.neg /\ t.e = v.e))
=============================================================================
