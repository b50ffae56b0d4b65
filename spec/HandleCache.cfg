SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Scales = {0, 2, 3}
  Emit = TRUE
  Workers = 1
INVARIANTS Fresh Emitted
CHECK_DEADLOCK FALSE
