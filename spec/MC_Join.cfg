INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Agree AgreeAny StuckIsError NeedlesAscend EveryRowMatches FilterLaw Transposed Trichotomy IsVecMatch
