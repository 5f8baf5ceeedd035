CONSTANTS MP = 3
MaxLen = 7
NPay = 2
Tls = FALSE
Carry = TRUE
H = 2
Plans = FALSE
INIT Init
NEXT Next
INVARIANTS Lossless CutMerges
CHECK_DEADLOCK FALSE
