SPECIFICATION Spec
CONSTANTS K = 6
 N = 3
INVARIANTS Conforms Once
