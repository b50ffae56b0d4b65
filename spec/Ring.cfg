CONSTANTS MaxP = 4
          MaxN = 6
          MaxM = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NeverTwice AllPairs Holding ReadsAsDocumented PairsAsDocumented
