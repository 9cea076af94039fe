INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS TableLaw SizeLaw RowLaw MissLaw Commute Undo Difference Anti Triangle Exactly UnitLaw DivMod NegLaw CumLaw Bounded DeMorgan Extreme
