SPECIFICATION Spec
CONSTANTS NOBS = 2
 KEEP = FALSE
INVARIANTS Conforms NoUse
PROPERTY Terminates
