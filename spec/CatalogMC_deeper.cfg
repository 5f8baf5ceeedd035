CONSTANTS MaxPat = 6
  Names <- McNamesLong
  ColSeqs <- McColSeqsOne
  Dbs <- McDbsLong
INIT Init
NEXT Next
INVARIANTS Mirrors Matcher
CHECK_DEADLOCK FALSE
