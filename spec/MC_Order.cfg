INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Preorder TiesAreEqual Stable OnlyOne FlipLaw Idem GroupsCover RankLaw CompareAgrees
