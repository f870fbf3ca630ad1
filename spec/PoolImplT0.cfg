SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  JobsPer = 2
  NW = 2
  Stops <- Stops0
INVARIANTS ContractHolds
PROPERTY Terminates
