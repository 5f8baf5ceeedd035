CONSTANTS MP = 3
MaxLen = 4
NPay = 2
Tls = TRUE
Carry = FALSE
H = 2
Plans = FALSE
INIT Init
NEXT Next
INVARIANTS Lossless CutMerges
CHECK_DEADLOCK FALSE
