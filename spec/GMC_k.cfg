SPECIFICATION Spec
INVARIANT Sound
INVARIANT Finished
PROPERTY Displaces
CHECK_DEADLOCK FALSE
CONSTANTS
  T = 2
  N = 2
  NK = 2
  Ops = {"ins", "rem", "clr", "jn", "jt", "goi", "fj", "ga"}
  Polls = 1
