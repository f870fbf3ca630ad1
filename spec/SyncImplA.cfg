SPECIFICATION Spec
CONSTANTS M = 3 K = 1 Kind = 5 Ops = {1, 3, 4, 5, 7, 8} Variant = "ok"
INVARIANTS Conforms Exclusion
