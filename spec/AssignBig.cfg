SPECIFICATION ASpec
CONSTANTS MaxTasks = 7
          MaxWeight = 3
          MaxWorkers = 6
INVARIANTS Complete EvenIfEqual IdleOnlyIfNothingLeft NoGreed
CHECK_DEADLOCK FALSE
