SPECIFICATION Spec
CONSTANTS
  Variant = "fixed"
  Freq = 2
  Period = 7
  Fibers = {1, 2}
INVARIANT Conforms
PROPERTY Ends
