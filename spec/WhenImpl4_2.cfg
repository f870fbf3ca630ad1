SPECIFICATION Spec
CONSTANTS K = 4
 N = 2
INVARIANTS Conforms Once
PROPERTY Terminates
