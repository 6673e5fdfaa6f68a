SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  NK = 3
  Cap = 2
  Thot = 1
  Gcap = 1
  Shapes <- PinnedBig
  Shapes2 <- Unit
  Api = "unsync"
  Ops = {"get", "ins", "rep", "rem", "goi"}
  MaxG = 0
  MaxSum = 4
