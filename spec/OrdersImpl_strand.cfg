SPECIFICATION Spec
CONSTANTS
  SYS = "strand"
  WEAKNAME = "none"
  WEAKTO = 0
INVARIANT NoRace
CHECK_DEADLOCK FALSE
