SPECIFICATION Spec
CONSTANTS NOBS = 3
 KEEP = FALSE
INVARIANTS Conforms NoUse
PROPERTY Terminates
