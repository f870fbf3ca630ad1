SPECIFICATION Spec
CONSTANTS N = 3
 TIMED = FALSE
INVARIANTS Conforms NotTouched Won
PROPERTY Terminates
