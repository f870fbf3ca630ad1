SPECIFICATION Spec
CONSTANTS N = 1
 KIND = 2
 REF = TRUE
INVARIANTS Conforms NotTouched
PROPERTY Terminates
