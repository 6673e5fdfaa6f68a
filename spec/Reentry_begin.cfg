SPECIFICATION Spec
CONSTANTS
  Threads = {1}
  Depth = 3
  Calls = 3
  Wrong = "begin"
INVARIANTS NoSelfDeadlock
CHECK_DEADLOCK FALSE
