--------------------------------- MODULE Vec ---------------------------------
(* Abstract vectors: v.s shell (type), v.r rows (sequence of sequences of elements), v.hn / v.n names. *)
EXTENDS Elem, Names

Prod(d) == FoldLeft(LAMBDA acc, v : acc * v, 1, d)

RECURSIVE Leaves(_)
Leaves(s) ==
  CASE s.k \in {"df", "rcrd"} ->
         Concat([j \in 1..Len(s.h) |->
           Leaves(s.h[j]) \o (IF s.x[j] = 1 THEN (IF s.h[j].k = "df" THEN <<"rowname">> ELSE <<"name">>) ELSE <<>>)])
    [] s.k \in {"null", "scalar", "lt"} -> <<>>
    [] s.k = "i64" -> Const(Prod(s.d), "i64")
    [] OTHER -> Const(Prod(s.d), s.st)

IsNameLeaf(l) == l \in {"name", "rowname"}

MissRow(s) == LET L == Leaves(s) IN [j \in 1..Len(L) |-> MissElem(L[j])]

Vec(s, r, hn, n) == [s |-> s, r |-> r, hn |-> hn, n |-> n]
Size(v) == Len(v.r)
NullVec == [s |-> [k |-> "null", st |-> "null", c |-> "", p |-> "", a |-> "", l |-> <<>>, nd |-> 0, d |-> <<>>, h |-> <<>>, x |-> <<>>],
            r |-> <<>>, hn |-> 0, n |-> <<>>]
BareShell(t) == [k |-> t, st |-> t, c |-> "", p |-> "", a |-> "", l |-> <<>>, nd |-> 0, d |-> <<>>, h |-> <<>>, x |-> <<>>]
IntVec(is) == Vec(BareShell("int"), [k \in 1..Len(is) |-> <<ElemOf(is[k])>>], 0, <<>>)
LglVec(ls) == Vec(BareShell("lgl"), [k \in 1..Len(ls) |-> <<ElemOf(ls[k])>>], 0, <<>>)
Ints(v) == [k \in 1..Len(v.r) |-> IntOf(v.r[k][1])]
Column(v, j) == [k \in 1..Len(v.r) |-> v.r[k][j]]

(* row names of nested data frames are made unique whenever rows move *)
FixRownames(L, rows) ==
  LET J == {j \in 1..Len(L) : L[j] = "rowname"} IN
  IF J = {} THEN rows
  ELSE LET fixed == [j \in J |-> UniqueNames([k \in 1..Len(rows) |-> rows[k][j]])]
       IN [k \in 1..Len(rows) |-> [j \in 1..Len(L) |-> IF j \in J THEN fixed[j][k] ELSE rows[k][j]]]

(* ---- slicing: locs is a sequence of locations, NA for missing ---- *)
SliceRows(v, locs) ==
  LET L == TLCEval(Leaves(v.s))
      miss == TLCEval([j \in 1..Len(L) |-> MissElem(L[j])])
  IN FixRownames(L, [k \in 1..Len(locs) |-> IF locs[k] = NA THEN miss ELSE v.r[locs[k]]])
(* classes vctrs has no proxy for are sliced by base R's `[`, whose name for a missing location is NA *)
ByBase(s) == (s.k \in {"dur", "i64"}) \/ (s.c = "vt_foreign")
SliceNames(v, locs) ==
  IF v.hn = 0 THEN <<>>
  ELSE LET raw == [k \in 1..Len(locs) |-> IF locs[k] = NA THEN (IF ByBase(v.s) THEN <<>> ELSE <<1>>) ELSE v.n[locs[k]]]
       IN IF v.s.k = "df" THEN UniqueNames(raw) ELSE raw
(* R has no empty dimnames: an array with no rows has no row names *)
RECURSIVE EmptyShell(_)
EmptyShell(s) ==
  IF s.k \notin {"df", "rcrd"} THEN s
  ELSE [s EXCEPT !.x = [j \in 1..Len(s.x) |-> IF s.h[j].nd > 0 THEN 0 ELSE s.x[j]],
                 !.h = [j \in 1..Len(s.h) |-> EmptyShell(s.h[j])]]
Canon(v) ==
  IF Len(v.r) > 0 THEN v
  ELSE [v EXCEPT !.s = EmptyShell(v.s), !.hn = IF v.s.nd > 0 THEN 0 ELSE v.hn]
Slice(v, locs) ==
  IF v.s.k = "null" THEN v
  ELSE Canon(Vec(v.s, SliceRows(v, locs), v.hn, SliceNames(v, locs)))

(* ---- row equality (missing equals missing, names of inner vectors ignored) ---- *)
ValLeaves(s) == LET L == Leaves(s) IN SelectSeq(Iota(Len(L)), LAMBDA j : ~IsNameLeaf(L[j]))
(* rows reduced to the comparable, normalised part: two rows are equal iff their keys are identical *)
Keys(v) ==
  LET L == TLCEval(Leaves(v.s))
      J == TLCEval(ValLeaves(v.s))
  IN [k \in 1..Len(v.r) |-> [j \in 1..Len(J) |-> NormElem(L[J[j]], v.r[k][J[j]])]]
KeyLeaves(s) == LET L == Leaves(s) J == ValLeaves(s) IN [j \in 1..Len(J) |-> L[J[j]]]

RowIncomplete(KL, key) == \E j \in 1..Len(KL) : IsMiss(KL[j], key[j])
RowMissing(KL, key) == Len(KL) > 0 /\ \A j \in 1..Len(KL) : IsMiss(KL[j], key[j])

(* same vector up to the shared representation *)
SameRows(a, b) == a.r = b.r
SameNames(a, b) == a.hn = b.hn /\ a.n = b.n
SameVec(a, b) == a.s = b.s /\ SameRows(a, b) /\ SameNames(a, b)
Unnamed(v) == [v EXCEPT !.hn = 0, !.n = <<>>]

(* ---- results of operations ---- *)
Ok(v) == [ok |-> 1, out |-> v]
Fail(classes) == [ok |-> 0, err |-> classes]
ErrMatch(classes, err) == "any" \in classes \/ \E k \in 1..Len(err) : err[k] \in classes
NamesErr == {"vctrs_error_names", "vctrs_error_names_must_be_unique", "vctrs_error_names_cannot_be_empty", "vctrs_error_names_cannot_be_dot_dot"}
(* the functions the drivers repair names with *)
RepairNames(ns0, repair) ==
  LET ns == TLCEval(MinimalNames(ns0)) ok(n) == [ok |-> 1, n |-> n] IN
  CASE repair = "minimal" -> ok(ns)
    [] repair \in {"unique", "unique_quiet"} -> ok(UniqueNames(ns))
    [] repair \in {"universal", "universal_quiet"} -> ok(UniversalNames(ns))
    [] repair = "check_unique" -> IF \E k \in 1..Len(ns0) : ns0[k] = <<>> THEN Fail({"any"}) ELSE IF CheckFault(ns) = "" THEN ok(ns) ELSE Fail({CheckFault(ns)})
    [] repair = "fn_dash" -> ok([k \in 1..Len(ns) |-> ns[k] \o <<45>>])
    [] repair = "fn_rev" -> ok(Reverse(ns))
    [] repair = "fn_na" -> IF Len(ns) = 0 THEN ok(ns) ELSE Fail({"any"})
    [] repair = "fn_short" -> IF Len(ns) = 0 THEN ok(ns) ELSE Fail({"any"})
    [] OTHER -> Fail({"any"})
=============================================================================
