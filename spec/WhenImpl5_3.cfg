SPECIFICATION Spec
CONSTANTS K = 5
 N = 3
INVARIANTS Conforms Once
