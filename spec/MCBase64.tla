------------------------------ MODULE MCBase64 ------------------------------
(* The specification of base64 itself: decoding inverts encoding, encoded  *)
(* texts are well-formed, and texts that decode to the same bytes as their *)
(* canonical encoding differ at most in the unused bits.                   *)
EXTENDS Base64, TLC
CONSTANTS ByteSet, SymSet, MaxLen, MaxSym

VARIABLES x, s
Init == x = <<>> /\ s = <<>>
Next == \/ s = <<>> /\ Len(x) < MaxLen /\ \E b \in ByteSet : x' = Append(x, b) /\ UNCHANGED s
        \/ x = <<>> /\ Len(s) < MaxSym /\ \E b \in SymSet : s' = Append(s, b) /\ UNCHANGED x
Spec == Init /\ [][Next]_<<x, s>>

RoundTrip ==
  LET e == Encode(x, Standard)
      u == Encode(x, UrlSafe)
  IN
  /\ WellFormed(e) /\ Decode(e) = x
  /\ UrlWellFormed(u) /\ UrlDecode(u) = x
  /\ \A i \in 1..Len(e) : u[i] = CASE e[i] = 43 -> 45 [] e[i] = 47 -> 95 [] OTHER -> e[i]
(* whatever is accepted has the length and symbols of the encoding of what it means *)
Accepted ==
  WellFormed(s) =>
    LET e == Encode(Decode(s), Standard) IN
    /\ Len(e) = Len(s)
    /\ \A i \in 1..Len(s) : s[i] # e[i] => i = Len(s) - PadCount(s) /\ PadCount(s) > 0
PaddingLast == WellFormed(s) => \A i \in 1..Len(s) : s[i] = Pad => i >= Len(s) - 1
=============================================================================
