------------------------------- MODULE Slicing -------------------------------
(* C01: slicing and initialising. C02: subscript resolution as operations. *)
EXTENDS Loc

ScalarErr == {"vctrs_error_scalar_type"}
IsScalar(v) == v.s.k \in {"scalar", "null"}

(* resolve i against v, then apply F(locs) *)
VecSlice(x, i) ==
  IF IsScalar(x) THEN Fail(ScalarErr \cup SubType)
  ELSE LET l == AsLoc(i, Size(x), x.hn, x.n) IN
       IF l.ok = 0 THEN l ELSE Ok(Slice(x, l.i))

VecInit(x, n) ==
  IF IsScalar(x) THEN Fail(ScalarErr)
  ELSE IF n < 0 THEN Fail({"any"})
  ELSE Ok(Slice(x, Const(n, NA)))

LocVec(l) == IF l.ok = 0 THEN l ELSE Ok([IntVec(l.i) EXCEPT !.hn = l.hn, !.n = l.n])
SeqLocs(start, size, inc) == [k \in 1..size |-> IF inc = 1 THEN start + k ELSE start + 2 - k]
=============================================================================
