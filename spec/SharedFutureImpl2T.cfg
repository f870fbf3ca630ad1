SPECIFICATION Spec
CONSTANTS NOBS = 2
 KEEP = TRUE
INVARIANTS Conforms NoUse
PROPERTY Terminates
