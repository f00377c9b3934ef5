------------------------------- MODULE Base64 -------------------------------
(* RFC 4648 base64 over sequences of bytes.                                *)
EXTENDS Integers, Sequences

UrlSafe  == 0
Standard == 1

(* symbol of a 6 bit value *)
Symbol(v, alphabet) ==
  CASE v < 26 -> 65 + v
    [] v < 52 -> 97 + v - 26
    [] v < 62 -> 48 + v - 52
    [] v = 62 -> IF alphabet = Standard THEN 43 ELSE 45
    [] v = 63 -> IF alphabet = Standard THEN 47 ELSE 95

Pad == 61

(* value of a symbol of the standard alphabet, -1 for other bytes *)
Val6(c) ==
  CASE c \in 65..90  -> c - 65
    [] c \in 97..122 -> c - 97 + 26
    [] c \in 48..57  -> c - 48 + 52
    [] c = 43        -> 62
    [] c = 47        -> 63
    [] OTHER         -> -1

UrlVal6(c) == CASE c = 45 -> 62 [] c = 95 -> 63 [] c \in {43, 47} -> -1 [] OTHER -> Val6(c)

EncLen(n) == 4 * ((n + 2) \div 3)

Encode(x, alphabet) ==
  LET n == Len(x)
      B(i) == IF i <= n THEN x[i] ELSE 0
      (* i-th symbol, 1-based *)
      Sym(i) ==
        LET g == (i - 1) \div 4
            a == B(3 * g + 1)
            b == B(3 * g + 2)
            c == B(3 * g + 3)
            k == (i - 1) % 4
        IN CASE k = 0 -> Symbol(a \div 4, alphabet)
             [] k = 1 -> Symbol((a % 4) * 16 + b \div 16, alphabet)
             [] k = 2 -> IF 3 * g + 2 > n THEN Pad ELSE Symbol((b % 16) * 4 + c \div 64, alphabet)
             [] k = 3 -> IF 3 * g + 3 > n THEN Pad ELSE Symbol(c % 64, alphabet)
  IN [i \in 1..EncLen(n) |-> Sym(i)]

(* number of padding characters at the end: 0, 1 or 2 *)
PadCount(s) ==
  LET n == Len(s) IN
  IF n = 0 \/ s[n] # Pad THEN 0 ELSE IF n > 1 /\ s[n - 1] = Pad THEN 2 ELSE 1

WellFormedBy(s, V(_)) ==
  /\ Len(s) % 4 = 0
  /\ \A i \in 1..(Len(s) - PadCount(s)) : V(s[i]) >= 0

DecodeBy(s, V(_)) ==
  LET p == PadCount(s)
      n == 3 * (Len(s) \div 4) - p
      S(i) == IF s[i] = Pad THEN 0 ELSE V(s[i])
      Byte(i) ==
        LET g == (i - 1) \div 3
            k == (i - 1) % 3
            q == 4 * g
        IN CASE k = 0 -> S(q + 1) * 4 + S(q + 2) \div 16
             [] k = 1 -> (S(q + 2) % 16) * 16 + S(q + 3) \div 4
             [] k = 2 -> (S(q + 3) % 4) * 64 + S(q + 4)
  IN IF n <= 0 THEN <<>> ELSE [i \in 1..n |-> Byte(i)]

WellFormed(s) == WellFormedBy(s, Val6)
Decode(s)     == DecodeBy(s, Val6)
UrlWellFormed(s) == WellFormedBy(s, UrlVal6)
UrlDecode(s)     == DecodeBy(s, UrlVal6)
=============================================================================
