SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  NK = 2
  Cap = 2
  Thot = 1
  Gcap = 1
  Shapes <- Two
  Shapes2 <- Unit
  Api = "sync"
  Ops = {"get", "ins", "rep", "rem", "clr", "jn", "wt", "goi"}
  MaxG = 3
  MaxSum = 4
