CONSTANT Keep = FALSE
SPECIFICATION Spec
INVARIANTS InvProtocol InvNobodyThinking InvClocks InvTally InvFair InvGames InvRecorded InvBoard
PROPERTY Ends
CHECK_DEADLOCK FALSE
