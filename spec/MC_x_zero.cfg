SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  NK = 3
  Cap = 2
  Thot = 1
  Gcap = 1
  Shapes <- Zero
  Shapes2 <- Zero
  Api = "unsync"
  Ops = {"get", "ins", "rep", "rem", "goi", "pmu"}
  MaxG = 0
  MaxSum = 4
