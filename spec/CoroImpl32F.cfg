SPECIFICATION Spec
CONSTANTS N = 3
 KIND = 2
 REF = FALSE
INVARIANTS Conforms NotTouched
PROPERTY Terminates
