SPECIFICATION Spec
CONSTANTS
 N = 1
 Steps = 4
 Vals <- CplxVals
INVARIANTS Convolution Impulse Observer
CHECK_DEADLOCK FALSE
