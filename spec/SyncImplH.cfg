SPECIFICATION Spec
CONSTANTS M = 2 K = 3 Kind = 0 Ops = {1, 4, 10, 12, 14} Variant = "ok"
INVARIANTS Conforms Exclusion
