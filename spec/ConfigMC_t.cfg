SPECIFICATION Spec
INVARIANT Layout
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSh = 65
  MaxEst = 2200
  MaxCap = 150
