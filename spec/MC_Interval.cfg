INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Disjoint CoverSame Confluent Sorted MembersOnce Minimal CompLaw ContainLaw
