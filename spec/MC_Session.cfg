INIT Init
NEXT Next
CONSTANT Defect = "none"
INVARIANTS MemoryIsValues FrozenMeanwhile NothingLeft NoLeak NoCycles
CHECK_DEADLOCK FALSE
