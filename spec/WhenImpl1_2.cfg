SPECIFICATION Spec
CONSTANTS K = 1
 N = 2
INVARIANTS Conforms Once
PROPERTY Terminates
