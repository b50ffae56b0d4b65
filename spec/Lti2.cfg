SPECIFICATION Spec
CONSTANTS
 N = 2
 Steps = 2
 Vals <- RealVals
INVARIANTS Convolution Impulse Observer
CHECK_DEADLOCK FALSE
