SPECIFICATION TSpec
INVARIANTS Inv InStep Soft
CHECK_DEADLOCK FALSE
CONSTANTS
  NK = 3
  Cap = 2
  Thot = 1
  Gcap = 1
  Shapes <- Mixed
  Shapes2 <- Zero
  Api = "unsync"
  Ops = {"get", "ins", "rep", "rem", "goi", "pmu", "gui"}
  MaxG = 0
  MaxSum = 4
  Lag = 1
