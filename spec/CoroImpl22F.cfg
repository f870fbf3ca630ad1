SPECIFICATION Spec
CONSTANTS N = 2
 KIND = 2
 REF = FALSE
INVARIANTS Conforms NotTouched
PROPERTY Terminates
