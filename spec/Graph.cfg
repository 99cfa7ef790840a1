SPECIFICATION Spec
CONSTANTS MaxCalls = 18
          MaxNodes = 10
INVARIANT Consistent
CHECK_DEADLOCK FALSE
