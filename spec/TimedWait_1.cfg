SPECIFICATION Spec
CONSTANTS
  Callers = {1, 2}
  Timeouts = {0, 1, 3}
  Horizon = 6
  Delay = 1
  MaxSpurious = 3
  Restart = FALSE
  Early = FALSE
INVARIANTS NotEarly NotLate NotStuck ZeroIsImmediate Undisturbed
CHECK_DEADLOCK FALSE
