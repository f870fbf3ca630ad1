SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  JobsPer = 2
  Workers = {1, 2}
  MaxRefuse = 2
INVARIANTS ContractHolds OneActivation RefsMatch
PROPERTY Terminates
