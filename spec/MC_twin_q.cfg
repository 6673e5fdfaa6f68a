SPECIFICATION TSpec
INVARIANTS Inv InStep Soft
CHECK_DEADLOCK FALSE
CONSTANTS
  NK = 2
  Cap = 2
  Thot = 1
  Gcap = 1
  Shapes <- Mixed
  Shapes2 <- Unit
  Api = "unsync"
  Ops = {"get", "ins", "rep", "rem", "goi", "pmu"}
  MaxG = 0
  MaxSum = 3
  Lag = 1
