SPECIFICATION Spec
CONSTANTS N = 3
 Ends = {"_exit"}
 MaxFork = 0
 Blocks = FALSE
 MaxReq = 1
 Wrong = "none"
INVARIANT Clean
CHECK_DEADLOCK FALSE
