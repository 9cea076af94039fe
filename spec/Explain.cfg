INIT Init
NEXT ExplainNext
CHECK_DEADLOCK FALSE
