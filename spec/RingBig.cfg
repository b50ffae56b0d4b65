CONSTANTS MaxP = 6
          MaxN = 13
          MaxM = 6
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NeverTwice AllPairs Holding ReadsAsDocumented PairsAsDocumented
