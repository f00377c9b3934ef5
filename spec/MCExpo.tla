------------------------------- MODULE MCExpo -------------------------------
(* Consistency of Exposition and Decimal themselves: a reference writer's  *)
(* text parses back to the given strings, for all strings over the special *)
(* bytes, and Close agrees with integer arithmetic.                        *)
EXTENDS Exposition
CONSTANTS ByteSet, MaxLen

VARIABLES s, t
Init == s = <<>> /\ t = <<>>
Next == \/ t = <<>> /\ Len(s) < MaxLen /\ \E b \in ByteSet : s' = Append(s, b) /\ UNCHANGED t
        \/ s = <<>> /\ Len(t) < 3 /\ \E d \in 0..9 : t' = Append(t, d) /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, t>>

Esc(x, quote) ==
  FoldLeft(LAMBDA a, c : a \o (CASE c = 10 -> <<92, 110>> [] c = 92 -> <<92, 92>>
                                 [] c = 34 /\ quote -> <<92, 34>> [] OTHER -> <<c>>), <<>>, x)
NoNl(x) == \A i \in 1..Len(x) : x[i] # 10

SampleLine(x) == <<109, 123, 97, 61, 34>> \o Esc(x, TRUE) \o <<34, 44, 98, 61, 34>> \o Esc(x, TRUE) \o <<34, 125, 32, 55>>
HelpLine(x)   == <<35, 32, 72, 69, 76, 80, 32, 109, 32>> \o Esc(x, FALSE)

LabelsParse ==
  /\ NoNl(SampleLine(s)) /\ NoNl(HelpLine(s))
  /\ SampleOf(SampleLine(s)).ok
  /\ SampleOf(SampleLine(s)).labs = {<<<<97>>, s>>, <<<<98>>, s>>}
  /\ Exact(OfText(SampleOf(SampleLine(s)).value), [Dec0 EXCEPT !.d = <<7>>, !.e = 1])
HelpParse ==
  LET d == ReadLine(Doc0, HelpLine(s)) IN
  d.ok /\ d.blocks[1].name = <<109>> /\ d.blocks[1].help = DropBlanks(s)

RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 10 * Pow(n - 1)
IntOf(x) == FoldLeft(LAMBDA a, d : 10 * a + d, 0, x)
AbsDiff(a, b) == IF a > b THEN a - b ELSE b - a
(* all pairs of three digit values, tolerance one unit of the n-th significant digit *)
CloseIsRight ==
  Len(t) = 3 =>
    LET v == Normalize(FALSE, t, 3) IN
    \A u \in {x \in 0..1099 : x < 20 \/ AbsDiff(x, IntOf(t)) < 25 \/ AbsDiff(AbsDiff(x, IntOf(t)), 100) < 3} :
      LET w == Normalize(FALSE, <<u \div 1000, (u \div 100) % 10, (u \div 10) % 10, u % 10>>, 4) IN
      \A n \in 2..3 :
        IF IntOf(t) = 0 THEN Close(w, v, n) = (u = 0)
        ELSE v.e >= n => (Close(w, v, n) = (AbsDiff(u, IntOf(t)) < Pow(v.e - n)))
=============================================================================
