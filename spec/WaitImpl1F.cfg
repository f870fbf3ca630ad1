SPECIFICATION Spec
CONSTANTS N = 1
 TIMED = FALSE
INVARIANTS Conforms NotTouched Won
PROPERTY Terminates
