SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  JobsPer = 1
  NW = 2
  Stops <- Stops2
INVARIANTS ContractHolds
PROPERTY Terminates
