SPECIFICATION Spec
CONSTANTS MaxP = 5
INVARIANTS NoDeadlock Correct
CHECK_DEADLOCK FALSE
