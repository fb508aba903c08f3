CONSTANT Keep = TRUE
INIT Init
NEXT Next
INVARIANTS Dump InvGoing InvFour InvReward
CHECK_DEADLOCK FALSE
