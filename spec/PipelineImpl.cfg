SPECIFICATION Spec
CONSTANTS
  Mode = "eager"
  Big = TRUE
INVARIANTS ContractHolds OneBlock NoUseAfterRelease
