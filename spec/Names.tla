------------------------------- MODULE Names -------------------------------
(* Valid metric and label names; a name is a sequence of bytes.            *)
EXTENDS Integers, Sequences

Digit == 48..57
Alpha == (65..90) \cup (97..122)
Us    == 95
Colon == 58

ReservedPrefix(s) == Len(s) >= 2 /\ s[1] = Us /\ s[2] = Us

ValidMetricName(s) ==
  /\ Len(s) > 0
  /\ s[1] \in Alpha \cup {Us, Colon}
  /\ \A i \in 1..Len(s) : s[i] \in Alpha \cup Digit \cup {Us, Colon}
  /\ ~ReservedPrefix(s)

Le_       == <<108, 101>>                                  \* "le"
Quantile_ == <<113, 117, 97, 110, 116, 105, 108, 101>>     \* "quantile"

ValidLabelName(s, ty) ==
  /\ Len(s) > 0
  /\ s[1] \in Alpha \cup {Us}
  /\ \A i \in 1..Len(s) : s[i] \in Alpha \cup Digit \cup {Us}
  /\ ~ReservedPrefix(s)
  /\ ~(ty = "histogram" /\ s = Le_)
  /\ ~(ty = "summary" /\ s = Quantile_)
=============================================================================
