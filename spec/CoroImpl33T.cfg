SPECIFICATION Spec
CONSTANTS N = 3
 KIND = 3
 REF = TRUE
INVARIANTS Conforms NotTouched
PROPERTY Terminates
