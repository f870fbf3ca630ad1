SPECIFICATION Spec
CONSTANTS
  SYS = "handoff"
  WEAKNAME = "none"
  WEAKTO = 0
INVARIANT NoRace
CHECK_DEADLOCK FALSE
