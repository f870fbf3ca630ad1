SPECIFICATION Spec
CONSTANTS M = 2 K = 2 Kind = 0 Ops = {1, 4, 11, 13, 14, 15} Variant = "ok"
INVARIANTS Conforms Exclusion
