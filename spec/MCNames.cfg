SPECIFICATION Spec
CONSTANTS
  ByteSet = {0, 47, 48, 57, 58, 64, 65, 90, 91, 95, 96, 97, 101, 108, 122, 123, 128, 255}
  MaxLen = 3
INVARIANT Agree
CHECK_DEADLOCK FALSE
