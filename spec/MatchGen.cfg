CONSTANT Keep = TRUE
INIT Init
NEXT Next
INVARIANTS Dump InvProtocol InvNobodyThinking InvClocks InvTally InvFair InvGames InvRecorded InvBoard
CHECK_DEADLOCK FALSE
