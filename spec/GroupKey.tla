------------------------------ MODULE GroupKey ------------------------------
(* How a Pushgateway reads the grouping key from the path of a request:        *)
(*   <base>/metrics/job[@base64]/<job>{/<name>[@base64]/<value>}                *)
EXTENDS Base64, FiniteSets, TLC

Slash == 47
Hex(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> -1

(* percent decoding; <<-1>> if malformed *)
RECURSIVE Unquote(_)
Unquote(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] # 37 THEN <<s[1]>> \o Unquote(Tail(s))
  ELSE IF Len(s) < 3 THEN <<-1>>
  ELSE IF Hex(s[2]) < 0 \/ Hex(s[3]) < 0 THEN <<-1>>
  ELSE <<16 * Hex(s[2]) + Hex(s[3])>> \o Unquote(SubSeq(s, 4, Len(s)))
HasPercent(s) == \E i \in 1..Len(s) : s[i] = 37
Plain(s) == IF HasPercent(s) THEN Unquote(s) ELSE s

StartsWith(s, t) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t

(* "/a/b" -> <<"a", "b">> *)
Split(s) ==
  LET cuts == {i \in 1..Len(s) : s[i] = Slash}
      n == Cardinality(cuts)
      at == [k \in 1..n |-> CHOOSE i \in cuts : Cardinality({j \in cuts : j < i}) = k - 1]
      end(k) == IF k = n THEN Len(s) ELSE at[k + 1] - 1
  IN [k \in 1..n |-> SubSeq(s, at[k] + 1, end(k))]

Suffix == <<64, 98, 97, 115, 101, 54, 52>>      \* @base64
IsEncoded(name) == Len(name) > Len(Suffix) /\ SubSeq(name, Len(name) - Len(Suffix) + 1, Len(name)) = Suffix
BareName(name) == IF IsEncoded(name) THEN SubSeq(name, 1, Len(name) - Len(Suffix)) ELSE name

RECURSIVE TrimPad(_)
TrimPad(s) == IF s # <<>> /\ s[Len(s)] = Pad THEN TrimPad(SubSeq(s, 1, Len(s) - 1)) ELSE s
Padded(s) == LET t == TrimPad(s)
                 k == Len(t) % 4
             IN t \o (CASE k = 2 -> <<Pad, Pad>> [] k = 3 -> <<Pad>> [] OTHER -> <<>>)

ValueOk(name, v) == IF IsEncoded(name) THEN UrlWellFormed(Padded(v)) ELSE TRUE
Value(name, v) == IF IsEncoded(name) THEN UrlDecode(Padded(v)) ELSE v

Dots == {<<46>>, <<46, 46>>}

(* the pairs of name and value of a path; <<>> if it is none                    *)
Metrics == <<47, 109, 101, 116, 114, 105, 99, 115>>     \* /metrics
Job == <<106, 111, 98>>

Key(base, target) ==
  LET path == Plain(target) IN
  IF \/ -1 \in {path[i] : i \in 1..Len(path)}
     \/ \E i \in 1..Len(target) : target[i] \in {35, 63} \/ target[i] <= 32 \/ target[i] >= 127
     \/ ~StartsWith(path, base \o Metrics) THEN <<>>
  ELSE LET rest == SubSeq(path, Len(base \o Metrics) + 1, Len(path))
           seg == Split(rest)
           n == Len(seg) \div 2
       IN IF \/ rest = <<>> \/ Len(seg) % 2 # 0
             \/ rest[1] # Slash
             \/ \E i \in 1..Len(seg) : seg[i] = <<>> \/ seg[i] \in Dots
             \/ BareName(seg[1]) # Job
             \/ \E k \in 1..n : ~ValueOk(seg[2 * k - 1], seg[2 * k])
          THEN <<>>
          ELSE [k \in 1..n |-> <<BareName(seg[2 * k - 1]), Value(seg[2 * k - 1], seg[2 * k])>>]

(* exactly these pairs, each once *)
IsKey(pairs, expected) ==
  /\ Len(pairs) = Cardinality(expected)
  /\ {pairs[i] : i \in 1..Len(pairs)} = expected
=============================================================================
