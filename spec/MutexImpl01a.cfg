SPECIFICATION Spec
CONSTANTS
  K = 3
  R = 1
  N = 2
  Batching = FALSE
  FIFO = TRUE
  Forms = {"co", "here", "on"}
INVARIANTS ContractHolds NobodyLost
PROPERTY Terminates
