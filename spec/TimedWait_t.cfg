SPECIFICATION Spec
CONSTANTS
  Callers = {1, 2, 3}
  Timeouts = {0, 1, 3}
  Horizon = 5
  Delay = 0
  MaxSpurious = 3
  Restart = FALSE
  Early = FALSE
INVARIANTS NotEarly NotLate NotStuck ZeroIsImmediate Undisturbed
CHECK_DEADLOCK FALSE
