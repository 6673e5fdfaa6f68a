SPECIFICATION Spec
INVARIANT Sound
INVARIANT Finished
PROPERTY Displaces
CHECK_DEADLOCK FALSE
CONSTANTS
  T = 3
  N = 2
  NK = 1
  Ops = {"ins", "jn", "jt", "fj"}
  Polls = 1
