SPECIFICATION Spec
CONSTANTS N = 3
 KIND = 2
 REF = TRUE
INVARIANTS Conforms NotTouched
PROPERTY Terminates
