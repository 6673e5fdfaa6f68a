SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  NK = 2
  Cap = 3
  Thot = 2
  Gcap = 1
  Shapes <- Plain
  Shapes2 <- Zero
  Api = "unsync"
  Ops = {"get", "ins", "rep", "rem", "ret", "clr", "drn", "gmu", "pmu", "goi", "gmi", "gui", "gum", "lc"}
  MaxG = 0
  MaxSum = 4
