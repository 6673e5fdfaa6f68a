SPECIFICATION FairSpec
INVARIANT Sound
INVARIANT Finished
PROPERTY Progress
CHECK_DEADLOCK FALSE
CONSTANTS
  T = 2
  N = 2
  NK = 1
  Ops = {"ins", "rem", "jn", "jt", "goi", "fj", "ga"}
  Polls = 1
