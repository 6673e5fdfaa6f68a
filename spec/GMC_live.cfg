SPECIFICATION FairSpec
INVARIANT Sound
INVARIANT Finished
PROPERTY Progress
CHECK_DEADLOCK FALSE
CONSTANTS
  T = 3
  N = 1
  NK = 1
  Ops = {"ins", "rem", "jn", "jt", "goi", "fj", "ga"}
  Polls = 1
