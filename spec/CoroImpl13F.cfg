SPECIFICATION Spec
CONSTANTS N = 1
 KIND = 3
 REF = FALSE
INVARIANTS Conforms NotTouched
PROPERTY Terminates
