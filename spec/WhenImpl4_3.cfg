SPECIFICATION Spec
CONSTANTS K = 4
 N = 3
INVARIANTS Conforms Once
