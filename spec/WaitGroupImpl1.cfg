SPECIFICATION Spec
CONSTANTS NW = 1
INVARIANTS Conforms
PROPERTY Terminates
