SPECIFICATION Spec
CONSTANTS K = 5
 N = 2
INVARIANTS Conforms Once
PROPERTY Terminates
