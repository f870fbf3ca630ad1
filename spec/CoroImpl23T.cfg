SPECIFICATION Spec
CONSTANTS N = 2
 KIND = 3
 REF = TRUE
INVARIANTS Conforms NotTouched
PROPERTY Terminates
