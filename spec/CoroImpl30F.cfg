SPECIFICATION Spec
CONSTANTS N = 3
 KIND = 0
 REF = FALSE
INVARIANTS Conforms NotTouched
PROPERTY Terminates
