SPECIFICATION Spec
CONSTANTS
  K = 2
  R = 2
  N = 2
  Batching = TRUE
  FIFO = TRUE
  Forms = {"co", "here", "on"}
INVARIANTS ContractHolds NobodyLost
PROPERTY Terminates
