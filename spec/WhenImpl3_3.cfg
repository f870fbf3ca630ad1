SPECIFICATION Spec
CONSTANTS K = 3
 N = 3
INVARIANTS Conforms Once
