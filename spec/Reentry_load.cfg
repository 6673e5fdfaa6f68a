SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  Depth = 3
  Calls = 3
  Wrong = "load"
INVARIANTS NoSelfDeadlock
CHECK_DEADLOCK FALSE
