SPECIFICATION Spec
CONSTANTS M = 3 K = 2 Kind = 0 Ops = {1, 4, 12, 13, 14} Variant = "ok"
INVARIANTS Conforms Exclusion
