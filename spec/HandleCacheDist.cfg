SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Scales = {0}
  Emit = TRUE
  Workers = 2
INVARIANTS Fresh Emitted
CHECK_DEADLOCK FALSE
