SPECIFICATION Spec
CONSTANTS
  K = 2
  R = 2
  N = 2
  Batching = FALSE
  FIFO = FALSE
  Forms = {"co", "here", "on"}
INVARIANTS ContractHolds NobodyLost
PROPERTY Terminates
