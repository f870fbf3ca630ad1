SPECIFICATION Spec
CONSTANTS N = 2
 KIND = 0
 REF = FALSE
INVARIANTS Conforms NotTouched
PROPERTY Terminates
