SPECIFICATION Spec
CONSTANTS N = 2
 TIMED = FALSE
INVARIANTS Conforms NotTouched Won
PROPERTY Terminates
