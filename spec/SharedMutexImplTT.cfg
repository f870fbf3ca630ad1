SPECIFICATION Spec
CONSTANTS
  K = 3
  R = 2
  N = 2
  FIFO = TRUE
  ReadersFIFO = FALSE
  Kinds = {"r", "w"}
INVARIANTS ContractHolds Asserts Quiet
PROPERTY Terminates
