-------------------------------- MODULE Num --------------------------------
(* Extended numbers, the values of metrics.                                *)
(*                                                                         *)
(* A number is a triple <<tag, hi, lo>>:                                   *)
(*   tag 0  finite, value hi * 2^26 + lo with 0 <= lo < 2^26               *)
(*   tag 1  +Inf     tag 2  -Inf     tag 3  NaN                            *)
(*   tag 4  a double that is not a multiple of the trace's unit            *)
(*   tag 5  not observed (matches everything)                              *)
(* TLC integers have 32 bits, hence the two limbs: all integers a double   *)
(* represents exactly (up to 2^53) fit.                                    *)
EXTENDS Integers, Sequences, SequencesExt

Base == 67108864

Fin(h, l) == <<0, h + (l \div Base), l % Base>>
OfInt(i)  == Fin(0, i)
Zero == <<0, 0, 0>>
One  == <<0, 0, 1>>
PInf == <<1, 0, 0>>
NInf == <<2, 0, 0>>
NaN  == <<3, 0, 0>>

IsFin(x) == x[1] = 0
IsNaN(x) == x[1] = 3

Neg(x) == CASE x[1] = 0 -> Fin(-x[2], -x[3])
            [] x[1] = 1 -> NInf
            [] x[1] = 2 -> PInf
            [] OTHER    -> x

(* IEEE addition where the result is exact *)
Add(x, y) ==
  CASE x[1] = 0 /\ y[1] = 0 -> Fin(x[2] + y[2], x[3] + y[3])
    [] x[1] = 3 \/ y[1] = 3 -> NaN
    [] x[1] = 0             -> y
    [] y[1] = 0             -> x
    [] x[1] = y[1]          -> x
    [] OTHER                -> NaN

(* x <= y and x < y, false if one of them is NaN *)
Le(x, y) ==
  CASE x[1] = 3 \/ y[1] = 3 -> FALSE
    [] x[1] = 2 \/ y[1] = 1 -> TRUE
    [] x[1] = 1             -> y[1] = 1
    [] y[1] = 2             -> x[1] = 2
    [] OTHER                -> x[2] < y[2] \/ (x[2] = y[2] /\ x[3] <= y[3])
Lt(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ ~Le(y, x)

IsNegative(x) == Lt(x, Zero)

(* equality of an expected and an observed number *)
Same(x, y) == x = y \/ y[1] = 5

(* sum of a sequence, sequence of its prefix sums *)
Sum(s) == FoldLeft(Add, Zero, s)
Cumulate(s) ==
  FoldLeft(LAMBDA acc, x : Append(acc, IF acc = <<>> THEN x ELSE Add(acc[Len(acc)], x)), <<>>, s)
=============================================================================
