SPECIFICATION Spec
CONSTANTS N = 3
 TIMED = TRUE
INVARIANTS Conforms NotTouched Won
PROPERTY Terminates
