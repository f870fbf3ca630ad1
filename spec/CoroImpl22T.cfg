SPECIFICATION Spec
CONSTANTS N = 2
 KIND = 2
 REF = TRUE
INVARIANTS Conforms NotTouched
PROPERTY Terminates
