SPECIFICATION Spec
CONSTANTS M = 2 K = 2 Kind = 5 Ops = {1, 2, 3, 4, 5, 6, 7, 8} Variant = "ok"
INVARIANTS Conforms Exclusion
