SPECIFICATION Spec
CONSTANTS
  K = 4
  R = 1
  N = 3
  FIFO = TRUE
  ReadersFIFO = FALSE
  Kinds = {"r", "w"}
INVARIANTS ContractHolds Asserts Quiet
PROPERTY Terminates
