INIT Init
NEXT Next
INVARIANTS RowCount ColUnion RowsKept Associative NullNeutral SplitRows Ids Beside1 CbindSize SplitCols FromColumns Unpacking Packing
CHECK_DEADLOCK FALSE
