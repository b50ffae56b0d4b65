CONSTANTS MaxP = 5
          MaxN = 12
          MaxM = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS AllPairs ElementOnce DiagonalOnce NoWaste ReadsAsDocumented
