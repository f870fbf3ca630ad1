SPECIFICATION Spec
CONSTANTS K = 1
 N = 3
INVARIANTS Conforms Once
