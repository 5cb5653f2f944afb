SPECIFICATION Fair
CONSTANTS N = 2
 Ends = {"exit","_exit"}
 MaxFork = 0
 Blocks = TRUE
 MaxReq = 2
 Wrong = "none"
INVARIANT Clean
PROPERTY Terminates
CHECK_DEADLOCK FALSE
