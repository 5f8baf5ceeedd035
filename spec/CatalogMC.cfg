CONSTANTS MaxPat = 2
  Names <- McNamesSmall
  ColSeqs <- McColSeqs
  Dbs <- McDbs
INIT Init
NEXT Next
INVARIANTS Mirrors Matcher EmitPlan
CHECK_DEADLOCK FALSE
