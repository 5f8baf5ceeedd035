CONSTANTS MaxLen = 4
Alphabet = {63, 39, 34, 96, 92, 45, 47, 42, 32, 10, 35, 97, 49}
INIT Init
NEXT Next
INVARIANTS Safe EmitPlan
CHECK_DEADLOCK FALSE
