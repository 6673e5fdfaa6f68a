SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  NK = 4
  Cap = 3
  Thot = 2
  Gcap = 2
  Shapes <- Unit
  Shapes2 <- Unit
  Api = "unsync"
  Ops = {"get", "ins", "rem", "goi"}
  MaxG = 0
  MaxSum = 4
