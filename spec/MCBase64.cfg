SPECIFICATION Spec
CONSTANTS
  ByteSet = {0, 1, 15, 61, 63, 127, 128, 251, 255}
  SymSet = {65, 66, 47, 43, 61, 45, 95, 32, 128}
  MaxLen = 4
  MaxSym = 4
INVARIANTS RoundTrip Accepted PaddingLast
CHECK_DEADLOCK FALSE
