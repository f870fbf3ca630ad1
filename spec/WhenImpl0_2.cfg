SPECIFICATION Spec
CONSTANTS K = 0
 N = 2
INVARIANTS Conforms Once
PROPERTY Terminates
