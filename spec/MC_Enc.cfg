INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Stutter Interned Idempotent Dictionary MatchesOf ByBytes
