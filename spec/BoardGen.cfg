CONSTANT Keep = TRUE
INIT Init
NEXT Next
INVARIANTS Dump InvRepetition
CHECK_DEADLOCK FALSE
