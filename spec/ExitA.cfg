SPECIFICATION Spec
CONSTANTS N = 3
 Ends = {"exit","_exit"}
 MaxFork = 0
 Blocks = FALSE
 MaxReq = 2
 Wrong = "none"
INVARIANT Clean
CHECK_DEADLOCK FALSE
