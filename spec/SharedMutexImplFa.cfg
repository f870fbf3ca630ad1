SPECIFICATION Spec
CONSTANTS
  K = 3
  R = 1
  N = 2
  FIFO = FALSE
  ReadersFIFO = FALSE
  Kinds = {"r", "w"}
INVARIANTS ContractHolds Asserts Quiet
PROPERTY Terminates
