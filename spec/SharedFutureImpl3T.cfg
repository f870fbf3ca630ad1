SPECIFICATION Spec
CONSTANTS NOBS = 3
 KEEP = TRUE
INVARIANTS Conforms NoUse
PROPERTY Terminates
