SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  JobsPer = 1
  Workers = {1, 2}
  MaxRefuse = 1
INVARIANTS ContractHolds OneActivation RefsMatch
PROPERTY Terminates
