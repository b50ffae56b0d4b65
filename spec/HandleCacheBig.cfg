SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Scales = {0, 1, 2, 3}
  Emit = TRUE
  Workers = 1
INVARIANTS Fresh Emitted
CHECK_DEADLOCK FALSE
