SPECIFICATION Spec
CONSTANTS NW = 2
INVARIANTS Conforms
PROPERTY Terminates
