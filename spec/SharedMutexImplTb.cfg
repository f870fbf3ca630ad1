SPECIFICATION Spec
CONSTANTS
  K = 2
  R = 2
  N = 2
  FIFO = TRUE
  ReadersFIFO = FALSE
  Kinds = {"r", "w", "tr", "tw"}
INVARIANTS ContractHolds Asserts Quiet
PROPERTY Terminates
