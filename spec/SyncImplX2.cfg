SPECIFICATION Spec
CONSTANTS M = 3 K = 2 Kind = 5 Ops = {1, 3, 4, 5, 8} Variant = "one"
INVARIANTS Conforms Exclusion
