SPECIFICATION Spec
CONSTANTS K = 3
 N = 2
INVARIANTS Conforms Once
PROPERTY Terminates
