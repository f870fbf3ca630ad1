SPECIFICATION Spec
CONSTANTS K = 0
 N = 3
INVARIANTS Conforms Once
