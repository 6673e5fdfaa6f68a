SPECIFICATION Spec
INVARIANT Sound
INVARIANT Finished
PROPERTY Displaces
CHECK_DEADLOCK FALSE
CONSTANTS
  T = 3
  N = 1
  NK = 1
  Ops = {"get", "ins", "rem", "clr", "jn", "jt", "goi", "fj", "ga"}
  Polls = 1
