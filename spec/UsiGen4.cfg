CONSTANTS
  Keep = TRUE
  Depth = 4
INIT Init
NEXT Next
INVARIANTS Dump InvNothingLost InvAnswered InvHonest InvNamed
CHECK_DEADLOCK FALSE
