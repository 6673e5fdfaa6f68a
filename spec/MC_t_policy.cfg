SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  NK = 5
  Cap = 3
  Thot = 2
  Gcap = 2
  Shapes <- Unit
  Shapes2 <- Unit
  Api = "unsync"
  Ops = {"get", "ins", "rem"}
  MaxG = 0
  MaxSum = 4
