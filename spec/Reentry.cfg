SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Depth = 3
  Calls = 3
  Wrong = "none"
INVARIANTS NoSelfDeadlock UserCodeUnlocked
PROPERTY Completes
CHECK_DEADLOCK FALSE
