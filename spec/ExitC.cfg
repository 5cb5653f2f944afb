SPECIFICATION Spec
CONSTANTS N = 2
 Ends = {"exit"}
 MaxFork = 1
 Blocks = FALSE
 MaxReq = 2
 Wrong = "none"
INVARIANT Clean
CHECK_DEADLOCK FALSE
