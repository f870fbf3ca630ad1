SPECIFICATION Spec
CONSTANTS
  Mode = "lazy"
  Big = TRUE
INVARIANTS ContractHolds OneBlock NoUseAfterRelease
