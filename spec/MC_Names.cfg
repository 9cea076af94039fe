INIT Init
NEXT Next
INVARIANTS Clean Idempotent SyntacticLaw Kept Local
CHECK_DEADLOCK FALSE
