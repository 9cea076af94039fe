INIT Init
NEXT Next
INVARIANTS SizeLaw RowLaw FailLaw Compose Identity Bounds Complement
CHECK_DEADLOCK FALSE
