SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Scales = {2}
  Emit = TRUE
  Workers = 3
INVARIANTS Fresh Emitted
CHECK_DEADLOCK FALSE
