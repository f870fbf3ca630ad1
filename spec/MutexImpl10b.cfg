SPECIFICATION Spec
CONSTANTS
  K = 2
  R = 2
  N = 2
  Batching = TRUE
  FIFO = FALSE
  Forms = {"co", "here", "on"}
INVARIANTS ContractHolds NobodyLost
PROPERTY Terminates
