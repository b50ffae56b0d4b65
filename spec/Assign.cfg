SPECIFICATION ASpec
CONSTANTS MaxTasks = 6
          MaxWeight = 3
          MaxWorkers = 4
INVARIANTS Complete EvenIfEqual IdleOnlyIfNothingLeft NoGreed
CHECK_DEADLOCK FALSE
