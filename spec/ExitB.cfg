SPECIFICATION Spec
CONSTANTS N = 2
 Ends = {"exit","sig","pexit"}
 MaxFork = 0
 Blocks = TRUE
 MaxReq = 2
 Wrong = "none"
INVARIANT Clean
CHECK_DEADLOCK FALSE
