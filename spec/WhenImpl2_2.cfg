SPECIFICATION Spec
CONSTANTS K = 2
 N = 2
INVARIANTS Conforms Once
PROPERTY Terminates
