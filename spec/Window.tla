------------------------------- MODULE Window -------------------------------
(* What a summary with window length A, k age buckets and quantiles Q may   *)
(* report. Observations come in bursts made at one instant; burst j holds   *)
(* the observations Bursts[j].from .. Bursts[j].to of the sequence Obs.     *)
(* Quantiles and errors are multiples of 1/D.                               *)
EXTENDS Integers, Sequences, SequencesExt

D == 10000

(* is an observation of the given age required / allowed to be reflected?  *)
Must(age, A, k) == age * k <= (k - 1) * A
May(age, A)     == age <= A

(* v lies in obs[a..b] and one of the ranks of v among obs[a..b] differs    *)
(* from q*n by at most e*n + 1                                             *)
RankOk(obs, a, b, v, q, e) ==
  LET n == b - a + 1
      c == FoldLeft(LAMBDA acc, x : IF x < v THEN <<acc[1] + 1, acc[2]>>
                                    ELSE IF x = v THEN <<acc[1], acc[2] + 1>> ELSE acc,
                    <<0, 0>>, SubSeq(obs, a, b))
      lo == c[1] + 1
      hi == c[1] + c[2]
  IN /\ c[2] > 0
     /\ lo * D <= (q + e) * n + D
     /\ hi * D >= (q - e) * n - D

NaNValue == -1

(* res is a possible report for the window obs[a..b] *)
Reports(obs, a, b, Q, res) ==
  /\ Len(res) = Len(Q)
  /\ \A i \in 1..Len(Q) :
       IF a > b THEN res[i] = NaNValue
       ELSE res[i] # NaNValue /\ RankOk(obs, a, b, res[i], Q[i][1], Q[i][2])
=============================================================================
