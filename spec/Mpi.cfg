SPECIFICATION Spec
INVARIANTS NoDeadlock SameCollectives NoLeftover CompleteAtReturn
CHECK_DEADLOCK FALSE
