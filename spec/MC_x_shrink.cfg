SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  NK = 2
  Cap = 3
  Thot = 2
  Gcap = 1
  Shapes <- Shrink
  Shapes2 <- Grow
  Api = "unsync"
  Ops = {"get", "ins", "rep", "rem", "goi", "pmu"}
  MaxG = 0
  MaxSum = 5
