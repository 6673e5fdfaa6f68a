SPECIFICATION Spec
INVARIANT Sound
INVARIANT Finished
PROPERTY Displaces
CHECK_DEADLOCK FALSE
CONSTANTS
  T = 4
  N = 1
  NK = 1
  Ops = {"rem", "jt", "jn", "fj"}
  Polls = 0
