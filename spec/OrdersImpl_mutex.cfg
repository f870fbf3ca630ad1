SPECIFICATION Spec
CONSTANTS
  SYS = "mutex"
  WEAKNAME = "none"
  WEAKTO = 0
INVARIANT NoRace
CHECK_DEADLOCK FALSE
