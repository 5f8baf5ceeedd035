SPECIFICATION Spec
CONSTANTS
  MaxInject = 3
  Step = 2
INVARIANTS TypeOK Registered Covered
PROPERTIES Answered Released WitnessServed
CHECK_DEADLOCK FALSE
