SPECIFICATION Spec
CONSTANTS
 N = 1
 Steps = 3
 Vals <- CplxVals
INVARIANTS Convolution Impulse Observer
CHECK_DEADLOCK FALSE
