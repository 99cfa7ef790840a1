SPECIFICATION Spec
CONSTANTS MaxCalls = 2
          MaxIter = 3
          Rich = FALSE
INVARIANT Consistent
CHECK_DEADLOCK FALSE
