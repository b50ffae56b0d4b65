SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Scales = {2}
  Emit = FALSE
  Workers = 1
INVARIANTS Fresh Emitted
CHECK_DEADLOCK FALSE
