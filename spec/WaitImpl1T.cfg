SPECIFICATION Spec
CONSTANTS N = 1
 TIMED = TRUE
INVARIANTS Conforms NotTouched Won
PROPERTY Terminates
