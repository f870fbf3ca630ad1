SPECIFICATION Spec
CONSTANTS N = 1
 KIND = 3
 REF = TRUE
INVARIANTS Conforms NotTouched
PROPERTY Terminates
