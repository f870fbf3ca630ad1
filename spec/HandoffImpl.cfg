SPECIFICATION Spec
CONSTANTS
  ProdVals = {7, 1000, 2005}
  Kinds = {"cb", "drop", "get", "wait"}
INVARIANTS ContractHolds ExactlyOnce NeverEarly
PROPERTY Terminates
