SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  NK = 3
  Cap = 3
  Thot = 2
  Gcap = 1
  Shapes <- Shrink
  Shapes2 <- Grow
  Api = "unsync"
  Ops = {"get", "ins", "rem", "gmu"}
  MaxG = 0
  MaxSum = 4
