SPECIFICATION Spec
CONSTANTS M = 2 K = 2 Kind = 5 Ops = {1, 3, 4, 5, 7, 8} Variant = "if"
INVARIANTS Conforms Exclusion
