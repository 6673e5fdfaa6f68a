SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  NK = 3
  Cap = 3
  Thot = 2
  Gcap = 1
  Shapes <- Pinned
  Shapes2 <- PinnedBig
  Api = "unsync"
  Ops = {"get", "ins", "rep", "rem", "goi", "pin", "pmu"}
  MaxG = 0
  MaxSum = 5
