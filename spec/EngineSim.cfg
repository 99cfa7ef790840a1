SPECIFICATION Spec
CONSTANTS MaxCalls = 9
          MaxIter = 3
          Rich = TRUE
INVARIANT Consistent
CHECK_DEADLOCK FALSE
