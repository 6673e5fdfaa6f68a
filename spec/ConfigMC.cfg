SPECIFICATION Spec
INVARIANT Layout
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSh = 17
  MaxEst = 600
  MaxCap = 40
