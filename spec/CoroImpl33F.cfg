SPECIFICATION Spec
CONSTANTS N = 3
 KIND = 3
 REF = FALSE
INVARIANTS Conforms NotTouched
PROPERTY Terminates
