SPECIFICATION Spec
INVARIANT Sound
INVARIANT Finished
PROPERTY Displaces
CHECK_DEADLOCK FALSE
CONSTANTS
  T = 2
  N = 3
  NK = 1
  Ops = {"get", "ins", "rem", "clr", "jn", "jt", "goi", "fj", "ga"}
  Polls = 1
