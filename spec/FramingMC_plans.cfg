CONSTANTS MP = 3
MaxLen = 2
NPay = 2
Tls = FALSE
Carry = TRUE
H = 4
Plans = TRUE
INIT Init
NEXT Next
INVARIANTS Lossless CutMerges EmitPlan
CHECK_DEADLOCK FALSE
