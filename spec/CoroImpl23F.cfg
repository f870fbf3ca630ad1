SPECIFICATION Spec
CONSTANTS N = 2
 KIND = 3
 REF = FALSE
INVARIANTS Conforms NotTouched
PROPERTY Terminates
