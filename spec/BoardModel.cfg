CONSTANT Keep = FALSE
INIT Init
NEXT Next
INVARIANTS InvConserved InvKings InvPlaced InvGame InvLegality InvSymmetric InvUnambiguous InvPacked InvReadsBack InvRepetition
CHECK_DEADLOCK FALSE
