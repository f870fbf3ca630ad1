SPECIFICATION Spec
CONSTANTS
  SYS = "counter"
  WEAKNAME = "none"
  WEAKTO = 0
INVARIANT NoRace
CHECK_DEADLOCK FALSE
