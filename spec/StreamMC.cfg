INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Buf = 2
  High = 3
  Low = 1
  Batch = 4
  Hops = 2
  MaxEnv = 4
INVARIANTS Lazy Fair NoLoss EmitPlan
