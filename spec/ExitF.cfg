SPECIFICATION Spec
CONSTANTS N = 2
 Ends = {"_exit"}
 MaxFork = 1
 Blocks = FALSE
 MaxReq = 1
 Wrong = "none"
INVARIANT Clean
CHECK_DEADLOCK FALSE
