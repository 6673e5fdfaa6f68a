SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  NK = 3
  Cap = 3
  Thot = 2
  Gcap = 1
  Shapes <- Mixed
  Shapes2 <- Zero
  Api = "unsync"
  Ops = {"get", "ins", "rep", "rem", "gmu"}
  MaxG = 0
  MaxSum = 4
