INIT Init
NEXT Next
INVARIANTS EqReflexive EqSymmetric PropSymmetric PropAgrees MissingIncomplete RecycleLaw UniqueLaw DupLaw MatchLaw SetLaw GroupLaw RunLaw UnrepRep RepLaw FillLaw GridLaw
CHECK_DEADLOCK FALSE
