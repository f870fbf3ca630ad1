SPECIFICATION Spec
CONSTANTS M = 3 K = 1 Kind = 5 Ops = {2, 3, 4, 5, 6, 8} Variant = "ok"
INVARIANTS Conforms Exclusion
