SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Depth = 2
  Calls = 2
  Wrong = "none"
INVARIANTS NoSelfDeadlock UserCodeUnlocked
PROPERTY Completes
CHECK_DEADLOCK FALSE
