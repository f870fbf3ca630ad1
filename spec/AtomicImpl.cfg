SPECIFICATION Spec
INVARIANTS Conforms Determined
CHECK_DEADLOCK FALSE
