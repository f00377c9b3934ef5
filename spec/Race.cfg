SPECIFICATION Spec
INVARIANT NoRace
CHECK_DEADLOCK FALSE
