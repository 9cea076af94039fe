INIT Init
NEXT Next
INVARIANTS AssignShape AssignRows AssignFail GetPut PutPut InverseLaw PieceRows LaterWins SizesAgree ConcatLaw OuterLaw RepairLaw InterLaw
CHECK_DEADLOCK FALSE
