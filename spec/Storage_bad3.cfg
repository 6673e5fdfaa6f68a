SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3, 4, 5}
  Cap = 2
  Ghosts = 2
  Pending = 1
  MaxSlots = 7
  Leak = "trim"
INVARIANTS Bounded
CONSTRAINT Small
CHECK_DEADLOCK FALSE
