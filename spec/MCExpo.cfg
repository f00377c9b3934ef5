SPECIFICATION Spec
CONSTANTS
  ByteSet = {10, 92, 34, 110, 32, 123, 125, 44, 61, 35, 255, 0}
  MaxLen = 4
INVARIANTS LabelsParse HelpParse CloseIsRight
CHECK_DEADLOCK FALSE
