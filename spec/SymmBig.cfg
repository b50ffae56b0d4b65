CONSTANTS MaxP = 8
          MaxN = 26
          MaxM = 8
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS AllPairs ElementOnce DiagonalOnce NoWaste ReadsAsDocumented
