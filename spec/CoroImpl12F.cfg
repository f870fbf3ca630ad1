SPECIFICATION Spec
CONSTANTS N = 1
 KIND = 2
 REF = FALSE
INVARIANTS Conforms NotTouched
PROPERTY Terminates
