SPECIFICATION Spec
CONSTANTS MaxP = 6
INVARIANTS NoDeadlock Correct
CHECK_DEADLOCK FALSE
