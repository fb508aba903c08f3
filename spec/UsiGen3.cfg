CONSTANTS
  Keep = TRUE
  Depth = 3
INIT Init
NEXT Next
INVARIANTS Dump InvNothingLost InvAnswered InvHonest InvNamed
CHECK_DEADLOCK FALSE
