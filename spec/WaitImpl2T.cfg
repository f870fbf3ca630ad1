SPECIFICATION Spec
CONSTANTS N = 2
 TIMED = TRUE
INVARIANTS Conforms NotTouched Won
PROPERTY Terminates
