----------------------------- MODULE Exposition -----------------------------
(* The Prometheus text exposition format: a parser for lines, the document *)
(* automaton, and what a list of metric families must parse back to.       *)
EXTENDS Decimal, FiniteSets, TLC

ToSetX(s) == {s[i] : i \in 1..Len(s)}

Blank == {32, 9}
NameStart == (65..90) \cup (97..122) \cup {95, 58}
NameChar  == NameStart \cup (48..57)
LabelStart == NameStart \ {58}
LabelChar  == NameChar \ {58}

(* ------------------------------------------------------------- samples *)
(* name ws? [{ name ws? = ws? "value" ws? , ... }] ws? value [ws ts] ws?  *)

ScanSample(line) ==
  FoldLeft(LAMBDA a, c :
    LET bad == [a EXCEPT !.q = "bad"] IN
    CASE a.q = "start" -> IF c \in NameStart THEN [a EXCEPT !.q = "name", !.name = <<c>>] ELSE bad
      [] a.q = "name" -> IF c \in NameChar THEN [a EXCEPT !.name = Append(@, c)]
                         ELSE IF c = 123 THEN [a EXCEPT !.q = "labels"]
                         ELSE IF c \in Blank THEN [a EXCEPT !.q = "aftername"] ELSE bad
      [] a.q = "aftername" -> IF c \in Blank THEN a
                              ELSE IF c = 123 THEN [a EXCEPT !.q = "labels"]
                              ELSE [a EXCEPT !.q = "value", !.value = <<c>>]
      [] a.q = "labels" -> IF c \in Blank THEN a                    \* a label name or }
                           ELSE IF c = 125 THEN [a EXCEPT !.q = "afterlabels"]
                           ELSE IF c \in LabelStart THEN [a EXCEPT !.q = "lname", !.ln = <<c>>] ELSE bad
      [] a.q = "lname" -> IF c \in LabelChar THEN [a EXCEPT !.ln = Append(@, c)]
                          ELSE IF c = 61 THEN [a EXCEPT !.q = "quote"]
                          ELSE IF c \in Blank THEN [a EXCEPT !.q = "eq"] ELSE bad
      [] a.q = "eq" -> IF c \in Blank THEN a ELSE IF c = 61 THEN [a EXCEPT !.q = "quote"] ELSE bad
      [] a.q = "quote" -> IF c \in Blank THEN a ELSE IF c = 34 THEN [a EXCEPT !.q = "lvalue", !.lv = <<>>] ELSE bad
      [] a.q = "lvalue" -> IF c = 92 THEN [a EXCEPT !.q = "esc"]
                           ELSE IF c = 34 THEN [a EXCEPT !.q = "comma", !.labs = Append(@, <<a.ln, a.lv>>)]
                           ELSE [a EXCEPT !.lv = Append(@, c)]
      [] a.q = "esc" -> IF c = 110 THEN [a EXCEPT !.q = "lvalue", !.lv = Append(@, 10)]
                        ELSE IF c \in {92, 34} THEN [a EXCEPT !.q = "lvalue", !.lv = Append(@, c)] ELSE bad
      [] a.q = "comma" -> IF c \in Blank THEN a
                          ELSE IF c = 44 THEN [a EXCEPT !.q = "labels"]
                          ELSE IF c = 125 THEN [a EXCEPT !.q = "afterlabels"] ELSE bad
      [] a.q = "afterlabels" -> IF c \in Blank THEN a ELSE [a EXCEPT !.q = "value", !.value = <<c>>]
      [] a.q = "value" -> IF c \in Blank THEN [a EXCEPT !.q = "aftervalue"] ELSE [a EXCEPT !.value = Append(@, c)]
      [] a.q = "aftervalue" -> IF c \in Blank THEN a ELSE [a EXCEPT !.q = "ts", !.ts = <<c>>]
      [] a.q = "ts" -> IF c \in Blank THEN [a EXCEPT !.q = "end"] ELSE [a EXCEPT !.ts = Append(@, c)]
      [] a.q = "end" -> IF c \in Blank THEN a ELSE bad
      [] OTHER -> bad,
    [q |-> "start", name |-> <<>>, labs |-> <<>>, ln |-> <<>>, lv |-> <<>>, value |-> <<>>, ts |-> <<>>], line)

(* a sample with its label names unique *)
SampleOf(line) ==
  LET a == ScanSample(line) IN
  [ok    |-> /\ a.q \in {"value", "aftervalue", "ts", "end"}
             /\ Cardinality({p[1] : p \in ToSetX(a.labs)}) = Len(a.labs)
             /\ a.ts # <<>> => IntText(a.ts),
   name  |-> a.name, labs |-> ToSetX(a.labs), value |-> a.value,
   ts    |-> IF a.ts = <<>> THEN Dec0 ELSE OfText(a.ts)]

(* ------------------------------------------------------------- comments *)

HelpWord == <<72, 69, 76, 80>>
TypeWord == <<84, 89, 80, 69>>

(* # ws* word ws+ name [ws+ rest] *)
ScanComment(line) ==
  FoldLeft(LAMBDA a, c :
    CASE a.q = "start" -> IF c = 35 THEN [a EXCEPT !.q = "pre"] ELSE [a EXCEPT !.q = "bad"]
      [] a.q = "pre"   -> IF c \in Blank THEN a ELSE [a EXCEPT !.q = "word", !.word = <<c>>]
      [] a.q = "word"  -> IF c \in Blank THEN [a EXCEPT !.q = "w1"] ELSE [a EXCEPT !.word = Append(@, c)]
      [] a.q = "w1"    -> IF c \in Blank THEN a ELSE [a EXCEPT !.q = "name", !.name = <<c>>]
      [] a.q = "name"  -> IF c \in Blank THEN [a EXCEPT !.q = "w2"] ELSE [a EXCEPT !.name = Append(@, c)]
      [] a.q = "w2"    -> IF c \in Blank THEN a ELSE [a EXCEPT !.q = "rest", !.rest = <<c>>]
      [] a.q = "rest"  -> [a EXCEPT !.rest = Append(@, c)]
      [] OTHER -> a,
    [q |-> "start", word |-> <<>>, name |-> <<>>, rest |-> <<>>], line)

UnescapeHelp(s) ==
  FoldLeft(LAMBDA a, c :
    IF a.esc
    THEN IF c = 110 THEN [a EXCEPT !.esc = FALSE, !.s = Append(@, 10)]
         ELSE IF c = 92 THEN [a EXCEPT !.esc = FALSE, !.s = Append(@, 92)]
         ELSE [a EXCEPT !.ok = FALSE, !.esc = FALSE]
    ELSE IF c = 92 THEN [a EXCEPT !.esc = TRUE] ELSE [a EXCEPT !.s = Append(@, c)],
    [s |-> <<>>, esc |-> FALSE, ok |-> TRUE], s)

(* blanks between the name and the help text belong to the syntax *)
RECURSIVE DropBlanks(_)
DropBlanks(s) == IF s # <<>> /\ s[1] \in Blank THEN DropBlanks(Tail(s)) ELSE s

TypeNames == [counter |-> <<99, 111, 117, 110, 116, 101, 114>>, gauge |-> <<103, 97, 117, 103, 101>>,
              histogram |-> <<104, 105, 115, 116, 111, 103, 114, 97, 109>>,
              summary |-> <<115, 117, 109, 109, 97, 114, 121>>, untyped |-> <<117, 110, 116, 121, 112, 101, 100>>]

(* -------------------------------------------------- document automaton *)
(* A document is a sequence of blocks, each [name, help, type, samples];   *)
(* help and type are <<>> until their line was read.                       *)

NoBlock == [name |-> <<>>, hashelp |-> FALSE, help |-> <<>>, type |-> <<>>, samples |-> <<>>]
Doc0 == [blocks |-> <<>>, ok |-> TRUE]
BadDoc(d) == [d EXCEPT !.ok = FALSE]

Last_(s) == s[Len(s)]
SetLast(d, b) == [d EXCEPT !.blocks[Len(d.blocks)] = b]
OpenBlock(d, name) == [d EXCEPT !.blocks = Append(@, [NoBlock EXCEPT !.name = name])]

(* the block that a HELP or TYPE line for name describes *)
BlockFor(d, name, help) ==
  IF d.blocks # <<>> /\ Last_(d.blocks).name = name /\ Last_(d.blocks).samples = <<>>
     /\ (IF help THEN ~Last_(d.blocks).hashelp ELSE Last_(d.blocks).type = <<>>)
  THEN d ELSE OpenBlock(d, name)

ReadLine(d, line) ==
  IF ~d.ok THEN d
  ELSE IF line = <<>> \/ \A i \in 1..Len(line) : line[i] \in Blank THEN d
  ELSE IF line[1] = 35
  THEN LET c == ScanComment(line) IN
       IF c.word = HelpWord
       THEN LET u == UnescapeHelp(c.rest)
                b == BlockFor(d, c.name, TRUE)
            IN IF c.name = <<>> \/ ~u.ok \/ u.esc THEN BadDoc(d)
               ELSE SetLast(b, [Last_(b.blocks) EXCEPT !.hashelp = TRUE, !.help = u.s])
       ELSE IF c.word = TypeWord
       THEN LET b == BlockFor(d, c.name, FALSE) IN
            IF c.name = <<>> \/ c.rest \notin {TypeNames[t] : t \in DOMAIN TypeNames} THEN BadDoc(d)
            ELSE SetLast(b, [Last_(b.blocks) EXCEPT !.type = c.rest])
       ELSE d
  ELSE LET s == SampleOf(line) IN
       IF ~s.ok \/ d.blocks = <<>> THEN BadDoc(d)
       ELSE SetLast(d, [Last_(d.blocks) EXCEPT !.samples = Append(@, s)])

(* ------------------------------------------- expected content of a block *)
(* A given family is [name, help, ty, m]; m is a sequence of metrics       *)
(* [lab, ts, c] with the value(s) in c as decimals:                        *)
(*   v | n, sum, b (sequence of <<bound, count>>) | n, sum, q              *)

Digits == 16
S(txt) == CASE txt = "bucket" -> <<95, 98, 117, 99, 107, 101, 116>>
            [] txt = "sum"    -> <<95, 115, 117, 109>>
            [] txt = "count"  -> <<95, 99, 111, 117, 110, 116>>
            [] txt = "info"   -> <<95, 105, 110, 102, 111>>
LeName == <<108, 101>>
QuantileName == <<113, 117, 97, 110, 116, 105, 108, 101>>

(* an expected sample: extra = <<label name, decimal>> or <<>> *)
Exp(f, m, suffix, extra, v, int) ==
  [name |-> f.name \o suffix, labs |-> ToSetX(m.lab), extra |-> extra, v |-> v, int |-> int, ts |-> m.ts]

ExpectedOf(f, m) ==
  CASE f.ty = "info" -> <<Exp(f, m, S("info"), <<>>, m.c.v, FALSE)>>
    [] f.ty \in {"counter", "gauge", "untyped"} -> <<Exp(f, m, <<>>, <<>>, m.c.v, FALSE)>>
    [] f.ty = "summary" ->
         <<Exp(f, m, S("count"), <<>>, m.c.n, TRUE), Exp(f, m, S("sum"), <<>>, m.c.sum, FALSE)>>
         \o [i \in 1..Len(m.c.q) |-> Exp(f, m, <<>>, <<QuantileName, m.c.q[i][1]>>, m.c.q[i][2], FALSE)]
    [] f.ty = "histogram" ->
         <<Exp(f, m, S("count"), <<>>, m.c.n, TRUE), Exp(f, m, S("sum"), <<>>, m.c.sum, FALSE)>>
         \o [i \in 1..Len(m.c.b) |-> Exp(f, m, S("bucket"), <<LeName, m.c.b[i][1]>>, m.c.b[i][2], TRUE)]
         \o (IF Len(m.c.b) > 0 /\ m.c.b[Len(m.c.b)][1].k = "inf" THEN <<>>
             ELSE <<Exp(f, m, S("bucket"), <<LeName, Special("inf")>>, m.c.n, TRUE)>>)

Expected(f) == FoldLeft(LAMBDA a, m : a \o ExpectedOf(f, m), <<>>, f.m)

Matches(s, x) ==
  /\ s.name = x.name
  /\ Exact(s.ts, x.ts)
  /\ IF x.extra = <<>> THEN s.labs = x.labs
     ELSE /\ Cardinality(s.labs) = Cardinality(x.labs) + 1
          /\ x.labs \subseteq s.labs
          /\ \A p \in s.labs \ x.labs : p[1] = x.extra[1] /\ Close(OfText(p[2]), x.extra[2], Digits)
  /\ IF x.int THEN Exact(OfText(s.value), x.v) ELSE Close(OfText(s.value), x.v, Digits)

BlockIs(b, f) ==
  LET xs == Expected(f) IN
  /\ b.name = f.name
  /\ b.type = TypeNames[IF f.ty = "info" THEN "gauge" ELSE f.ty]
  /\ b.help = DropBlanks(f.help)
  /\ Len(b.samples) = Len(xs)
  /\ \A i \in 1..Len(xs) :
       \/ Matches(b.samples[i], xs[i])                 \* same order: no search
       \/ \E j \in 1..Len(xs) : Matches(b.samples[j], xs[i])
  /\ \A j \in 1..Len(xs) :
       \/ Matches(b.samples[j], xs[j])
       \/ \E i \in 1..Len(xs) : Matches(b.samples[j], xs[i])
=============================================================================
