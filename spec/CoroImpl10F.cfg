SPECIFICATION Spec
CONSTANTS N = 1
 KIND = 0
 REF = FALSE
INVARIANTS Conforms NotTouched
PROPERTY Terminates
