SPECIFICATION Spec
CONSTANTS
  K = 4
  R = 1
  N = 1
  FIFO = FALSE
  ReadersFIFO = FALSE
  Kinds = {"r", "w"}
INVARIANTS ContractHolds Asserts Quiet
PROPERTY Terminates
