SPECIFICATION Spec
CONSTANTS K = 2
 N = 3
INVARIANTS Conforms Once
