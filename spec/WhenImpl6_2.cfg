SPECIFICATION Spec
CONSTANTS K = 6
 N = 2
INVARIANTS Conforms Once
PROPERTY Terminates
