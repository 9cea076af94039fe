------------------------------- MODULE Relations -------------------------------
(* C08 sizes, C09 equality and missingness, C11 uniqueness, C12 matching and sets, C13 groups and runs, C18 repetition and fill.
   Everything here is a function of the sequence of row keys (Vec!Keys). *)
EXTENDS Types

SizeErr == {"vctrs_error_incompatible_size"}
Flag(b) == IF b THEN 1 ELSE 0
IntsV(is) == Ok(IntVec(is))
LglsV(bs) == Ok(LglVec([k \in 1..Len(bs) |-> Flag(bs[k])]))
OutIs(x) == Ok(x)
IntE(is) == [k \in 1..Len(is) |-> <<ElemOf(is[k])>>]

(* a data frame with the given columns *)
MkDf(names, cols, n) == FromCols(DfMake(names, [j \in 1..Len(cols) |-> cols[j].s], FALSE), cols, n)
NmKey == <<1, 107, 101, 121>>
NmCount == <<1, 99, 111, 117, 110, 116>>
NmTimes == <<1, 116, 105, 109, 101, 115>>

(* ---------------- C08: sizes ---------------- *)
NonNull(xs) == SelectSeq(xs, LAMBDA x : x.s.k # "null")
SizeOf(x) == IF x.s.k = "scalar" THEN ScalarFail ELSE [ok |-> 1, n |-> Size(x)]
CommonSize(sizes) == \* 1 only if all are 1, otherwise the one size of the others; NA when there is none
  LET K == Which(Len(sizes), LAMBDA k : sizes[k] # 1) IN
  IF Len(sizes) = 0 THEN [ok |-> 1, n |-> NA]
  ELSE IF K = <<>> THEN [ok |-> 1, n |-> 1]
  ELSE IF \A j \in 1..Len(K) : sizes[K[j]] = sizes[K[1]] THEN [ok |-> 1, n |-> sizes[K[1]]]
  ELSE Fail(SizeErr)
SizeCommon(xs) ==
  LET ys == NonNull(xs) c == CommonSize([k \in 1..Len(ys) |-> Size(ys[k])]) IN
  IF \E k \in 1..Len(ys) : ys[k].s.k = "scalar" THEN Fail(ScalarErr \cup SizeErr) ELSE c
Recycle(x, n) ==
  IF x.s.k = "null" THEN Ok(x)
  ELSE IF x.s.k = "scalar" THEN ScalarFail
  ELSE IF Size(x) = n THEN Ok(x)
  ELSE IF Size(x) = 1 THEN Ok(Slice(x, Const(n, 1)))
  ELSE Fail(SizeErr)
RecycleCommon(xs, size) ==
  LET c == IF size # NA THEN [ok |-> 1, n |-> size] ELSE SizeCommon(xs) IN
  IF c.ok = 0 THEN c
  ELSE LET rs == TLCEval([k \in 1..Len(xs) |-> IF c.n = NA THEN Ok(xs[k]) ELSE Recycle(xs[k], c.n)]) f == FirstFail(rs) IN
       IF f.ok = 0 THEN Fail(SizeErr \cup ScalarErr) ELSE [ok |-> 1, outs |-> [k \in 1..Len(rs) |-> rs[k].out]]

(* ---------------- first occurrences ---------------- *)
FirstIx(keys) == [k \in 1..Len(keys) |-> SelectInSeq(keys, LAMBDA e : e = keys[k])]
FirstEq(keys, key) == SelectInSeq(keys, LAMBDA e : e = key) \* 0 when there is none
UniqLocs(F) == SelectSeq(Iota(Len(F)), LAMBDA k : F[k] = k)
DupFirsts(F) == {F[k] : k \in {j \in 1..Len(F) : F[j] # j}}
GroupIds(F) == LET U == TLCEval(UniqLocs(F))
                   rank == TLCEval([k \in Range1(U) |-> SelectInSeq(U, LAMBDA e : e = k)]) IN [k \in 1..Len(F) |-> rank[F[k]]]
GroupLocs(F) == LET U == TLCEval(UniqLocs(F)) IN [g \in 1..Len(U) |-> Which(Len(F), LAMBDA k : F[k] = U[g])]

(* ---------------- C13: runs ---------------- *)
Starts(keys) == Which(Len(keys), LAMBDA k : k = 1 \/ keys[k] # keys[k-1])
Ends(keys) == Which(Len(keys), LAMBDA k : k = Len(keys) \/ keys[k] # keys[k+1])
RunIds(keys) ==
  LET f == FoldLeft(LAMBDA acc, k : [i |-> Append(acc.i, IF k = 1 \/ keys[k] # keys[k-1] THEN acc.n + 1 ELSE acc.n),
                                     n |-> IF k = 1 \/ keys[k] # keys[k-1] THEN acc.n + 1 ELSE acc.n],
                    [i |-> <<>>, n |-> 0], Iota(Len(keys)))
  IN f
RunSizes(keys) == LET S == TLCEval(Starts(keys)) IN [j \in 1..Len(S) |-> (IF j = Len(S) THEN Len(keys) + 1 ELSE S[j+1]) - S[j]]

(* ---------------- C09 ---------------- *)
(* both vectors at their common type: [ok, x, y] *)
Both(x, y, ptype, final) ==
  IF x.s.k = "scalar" \/ y.s.k = "scalar" THEN ScalarFail
  ELSE LET t0 == IF ptype.s.k # "null" THEN OkS(PtypeS(ptype)) ELSE Ptype2(x, y) IN
  IF t0.ok # 1 THEN t0
  ELSE LET t == FinaliseS(t0.s) a == TLCEval(CastS(x, t)) b == TLCEval(CastS(y, t)) IN
       IF a.ok \notin {0, 1} \/ b.ok \notin {0, 1} THEN Unmodelled
       ELSE IF a.ok = 0 THEN (IF b.ok = 0 THEN Fail(a.err \cup b.err) ELSE a) ELSE IF b.ok = 0 THEN b
       ELSE [ok |-> 1, x |-> DblStore(a.out), y |-> DblStore(b.out)]
EqRow(KL, a, b, na_equal) ==
  IF na_equal = 1 THEN <<Flag(a = b)>>
  ELSE LET J == Which(Len(KL), LAMBDA j : IsMiss(KL[j], a[j]) \/ IsMiss(KL[j], b[j]) \/ a[j] # b[j]) IN
       IF J = <<>> THEN <<1>>
       ELSE IF IsMiss(KL[J[1]], a[J[1]]) \/ IsMiss(KL[J[1]], b[J[1]]) THEN <<>> ELSE <<0>>
(* recycling comes first: a missing value recycled to size 0 is an ordinary logical *)
VecEqual(x0, y0, na_equal, ptype) ==
  LET c == SizeCommon(<<x0, y0>>) IN
  IF c.ok = 0 THEN c
  ELSE LET rx == Recycle(x0, c.n) ry == Recycle(y0, c.n) bs == Both(rx.out, ry.out, ptype, TRUE) IN
  IF bs.ok # 1 THEN bs
  ELSE LET KL == TLCEval(KeyLeaves(bs.x.s)) a == TLCEval(Keys(bs.x)) b == TLCEval(Keys(bs.y)) IN
       Ok([LglVec(<<>>) EXCEPT !.r = [k \in 1..c.n |-> <<EqRow(KL, a[k], b[k], na_equal)>>]])

Missings(x) == LET KL == TLCEval(KeyLeaves(x.s)) ks == TLCEval(Keys(x)) IN [k \in 1..Len(ks) |-> \A j \in 1..Len(KL) : IsMiss(KL[j], ks[k][j])]
Completes(x) == LET KL == TLCEval(KeyLeaves(x.s)) ks == TLCEval(Keys(x)) IN [k \in 1..Len(ks) |-> ~RowIncomplete(KL, ks[k])]
WhichTrue(bs) == Which(Len(bs), LAMBDA k : bs[k])

(* ---------------- C12 ---------------- *)
VecMatch(needles, haystack, na_equal) ==
  LET bs == Both(needles, haystack, NullVec, TRUE) IN
  IF bs.ok # 1 THEN bs
  ELSE LET KL == TLCEval(KeyLeaves(bs.x.s)) a == TLCEval(Keys(bs.x)) b == TLCEval(Keys(bs.y)) IN
       [ok |-> 1, i |-> [k \in 1..Len(a) |-> IF na_equal = 0 /\ RowIncomplete(KL, a[k]) THEN NA ELSE FirstEq(b, a[k])]]
SetLocs(op, a, b) ==
  LET ua == TLCEval(UniqLocs(FirstIx(a))) ub == TLCEval(UniqLocs(FirstIx(b))) A == TLCEval(Range1(a)) B == TLCEval(Range1(b)) IN
  CASE op = "vec_set_intersect" -> <<SelectSeq(ua, LAMBDA k : a[k] \in B), <<>>>>
    [] op = "vec_set_difference" -> <<SelectSeq(ua, LAMBDA k : a[k] \notin B), <<>>>>
    [] op = "vec_set_union" -> <<ua, SelectSeq(ub, LAMBDA k : b[k] \notin A)>>
    [] op = "vec_set_symmetric_difference" -> <<SelectSeq(ua, LAMBDA k : a[k] \notin B), SelectSeq(ub, LAMBDA k : b[k] \notin A)>>
SetNames(op, x, y, ls) ==
  IF op \in {"vec_set_intersect", "vec_set_difference"}
  THEN IF x.hn = 0 THEN <<0, <<>>>> ELSE <<1, [k \in 1..Len(ls[1]) |-> x.n[ls[1][k]]]>>
  ELSE LET nm(v, l) == IF v.hn = 0 THEN Const(Len(l), <<1>>) ELSE [k \in 1..Len(l) |-> v.n[l[k]]] IN
       IF x.hn = 0 /\ y.hn = 0 THEN <<0, <<>>>> ELSE <<1, nm(x, ls[1]) \o nm(y, ls[2])>>
SetOp(ev) ==
  LET bs == Both(ev.v.x, ev.v.y, ev.v.ptype, TRUE) IN
  IF bs.ok = 2 THEN [all |-> TRUE] ELSE IF bs.ok # 1 THEN bs
  ELSE LET ls == TLCEval(SetLocs(ev.op, Keys(bs.x), Keys(bs.y)))
           x == TLCEval(Values(bs.x)) y == TLCEval(Values(bs.y))
           rows == [k \in 1..Len(ls[1]) |-> x.r[ls[1][k]]] \o [k \in 1..Len(ls[2]) |-> y.r[ls[2][k]]]
           nms == SetNames(ev.op, ev.v.x, ev.v.y, ls)
       IN [ok |-> 1, exp |-> <<x.s, rows, nms>>,
           pred |-> ev.ok = 1 /\ LET o == Values(ev.out) IN
                    /\ o.s = x.s /\ o.r = rows
                    /\ (ev.v.x.s.k \in Native \cup {"date", "dttm"} /\ x.s.nd = 0 /\ ~(ByBase(ev.v.x.s) \/ ByBase(ev.v.y.s)) /\ ~IsUnspec(ev.v.x) /\ ~IsUnspec(ev.v.y)
                        /\ IF ev.op \in {"vec_set_intersect", "vec_set_difference"} THEN ev.v.x.s.k = x.s.k ELSE ev.v.x.s.k = x.s.k /\ ev.v.y.s.k = x.s.k)
                       => ev.out.hn = nms[1] /\ ev.out.n = nms[2]]

(* ---------------- C18 ---------------- *)
IntArg(v) == CastS(v, BareShell("int"))
BadTimes(is) == \E k \in 1..Len(is) : is[k] = NA \/ is[k] < 0
VecRep(x, times) ==
  LET t == IntArg(times) IN
  IF times.s.k = "null" THEN Fail({"any"})
  ELSE IF t.ok = 2 THEN [all |-> TRUE] ELSE IF t.ok = 0 THEN (IF x.s.k = "scalar" THEN Fail(t.err \cup ScalarErr) ELSE t)
  ELSE LET is == Ints(t.out) IN
  IF Len(is) # 1 \/ BadTimes(is) THEN Fail({"any"})
  ELSE IF is[1] = 1 THEN Ok(x)
  ELSE IF IsScalar(x) THEN (IF x.s.k = "null" THEN Ok(x) ELSE ScalarFail)
  ELSE Ok(Slice(x, [k \in 1..(Size(x) * is[1]) |-> ((k - 1) % Size(x)) + 1]))
EachLocs(is) == Concat([k \in 1..Len(is) |-> Const(is[k], k)])
VecRepEach(x, times) ==
  LET t == IntArg(times) IN
  IF times.s.k = "null" THEN Fail({"any"})
  ELSE IF t.ok = 2 THEN [all |-> TRUE] ELSE IF t.ok = 0 THEN (IF x.s.k = "scalar" THEN Fail(t.err \cup ScalarErr) ELSE t)
  ELSE LET is == Ints(t.out) IN
  IF Len(is) = 1 /\ is = <<1>> THEN Ok(x)
  ELSE IF IsScalar(x) THEN Fail({"any"})
  ELSE IF Len(is) = 1 THEN (IF BadTimes(is) THEN Fail({"any"}) ELSE Ok(Slice(x, EachLocs(Const(Size(x), is[1])))))
  ELSE IF Len(is) # Size(x) THEN Fail(SizeErr)
  ELSE IF BadTimes(is) THEN Fail({"any"})
  ELSE Ok(Slice(x, EachLocs(is)))
(* the row each row is filled from *)
FillLocs(miss, dir, max) ==
  LET n == Len(miss)
      prev(k) == LET K == {j \in 1..(k-1) : ~miss[j]} IN IF K = {} THEN 0 ELSE CHOOSE j \in K : \A i \in K : i <= j
      next(k) == LET K == {j \in (k+1)..n : ~miss[j]} IN IF K = {} THEN 0 ELSE CHOOSE j \in K : \A i \in K : i >= j
      lim(k, j) == IF j = 0 THEN k ELSE IF max # NA /\ AbsI(k - j) > max THEN k ELSE j
      down(k) == lim(k, prev(k))
      up(k) == lim(k, next(k))
  IN [k \in 1..n |->
        IF ~miss[k] THEN k
        ELSE CASE dir = "down" -> down(k)
               [] dir = "up" -> up(k)
               [] dir = "downup" -> IF prev(k) # 0 THEN down(k) ELSE up(k)
               [] OTHER -> IF next(k) # 0 THEN up(k) ELSE down(k)]
VecFill(x, dir, max) == IF IsScalar(x) THEN (IF x.s.k = "null" THEN Ok(x) ELSE ScalarFail) ELSE Ok(Slice(x, FillLocs(TLCEval(Missings(x)), dir, max)))
(* expansion: the location of component k of row r (0-based) *)
GridLocs(sizes, vary, k) ==
  LET total == FoldLeft(LAMBDA acc, v : acc * v, 1, sizes)
      inner == IF vary = "slowest" THEN FoldLeft(LAMBDA acc, v : acc * v, 1, SubSeq(sizes, k + 1, Len(sizes)))
               ELSE FoldLeft(LAMBDA acc, v : acc * v, 1, SubSeq(sizes, 1, k - 1))
  IN [r \in 1..total |-> (((r - 1) \div inner) % sizes[k]) + 1]
ExpandGrid(xs, ns, vary, repair) ==
  LET K == Which(Len(xs), LAMBDA k : xs[k].s.k # "null")
      ys == [j \in 1..Len(K) |-> xs[K[j]]]
      nm == [j \in 1..Len(K) |-> ns[K[j]]]
      sizes == [j \in 1..Len(K) |-> Size(ys[j])]
      total == FoldLeft(LAMBDA acc, v : acc * v, 1, sizes)
      out == RepairNames(nm, repair)
  IN IF \E j \in 1..Len(ys) : ys[j].s.k = "scalar" THEN Fail({"any"})
     ELSE IF out.ok = 0 THEN out
     ELSE Ok(MkDf(out.n, [j \in 1..Len(ys) |-> Slice(ys[j], GridLocs(sizes, vary, j))], total))

(* ---------------- expected results ---------------- *)
RelOps == {"vec_size", "vec_is_empty", "vec_size_common", "vec_recycle", "vec_recycle_common", "list_sizes", "list_all_size", "list_check_all_size", "vec_check_size",
           "vec_equal", "vec_detect_missing", "vec_detect_complete", "vec_any_missing", "vec_locate_complete", "vec_slice_complete",
           "vec_unique_loc", "vec_unique", "vec_unique_count", "vec_duplicate_any", "vec_duplicate_detect", "vec_duplicate_id", "vec_count", "unique_big",
           "vec_match", "vec_in", "vec_set_intersect", "vec_set_difference", "vec_set_union", "vec_set_symmetric_difference",
           "vec_group_id", "vec_group_loc", "vec_group_rle", "vec_split", "vec_identify_runs", "vec_run_sizes", "vec_detect_run_bounds", "vec_locate_run_bounds", "vec_unrep", "unrep_rep",
           "vec_rep", "vec_rep_each", "vec_fill_missing", "vec_expand_grid"}
IsPerm(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Cardinality({j \in 1..Len(s) : s[j] = s[k]}) = Cardinality({j \in 1..Len(t) : t[j] = s[k]})
X(ev, F(_)) == IF IsScalar(ev.v.x) THEN (IF ev.v.x.s.k = "null" THEN [all |-> TRUE] ELSE Fail(ScalarErr \cup {"any"})) ELSE F(ev.v.x)
ExpRel(ev) ==
  CASE ev.op = "vec_size" -> IF ev.v.x.s.k = "scalar" THEN ScalarFail ELSE IntsV(<<Size(ev.v.x)>>)
    [] ev.op = "vec_is_empty" -> IF ev.v.x.s.k = "scalar" THEN ScalarFail ELSE LglsV(<<Size(ev.v.x) = 0>>)
    [] ev.op = "vec_size_common" ->
         IF ev.p.size # NA THEN IntsV(<<ev.p.size>>)
         ELSE LET c == SizeCommon(ev.l.xs) IN IF c.ok = 0 THEN c ELSE IntsV(<<IF c.n = NA THEN ev.p.absent ELSE c.n>>)
    [] ev.op = "vec_recycle" -> IF ev.p.n < 0 THEN Fail({"any"}) ELSE Recycle(ev.v.x, ev.p.n)
    [] ev.op = "vec_recycle_common" ->
         LET r == RecycleCommon(ev.l.xs, ev.p.size) IN
         IF r.ok = 0 THEN r ELSE [ok |-> 1, exp |-> r.outs, pred |-> ev.ok = 1 /\ ev.outs = r.outs /\ ev.on = ev.ln.xs]
    [] ev.op = "list_sizes" ->
         IF \E k \in 1..Len(ev.l.xs) : ev.l.xs[k].s.k = "scalar" THEN ScalarFail
         ELSE Ok([IntVec([k \in 1..Len(ev.l.xs) |-> Size(ev.l.xs[k])]) EXCEPT !.hn = ev.ln.xs.hn, !.n = ev.ln.xs.n])
    [] ev.op = "list_all_size" ->
         LET K == Which(Len(ev.l.xs), LAMBDA k : ev.l.xs[k].s.k = "scalar" \/ Size(ev.l.xs[k]) # ev.p.n) IN
         IF K # <<>> /\ ev.l.xs[K[1]].s.k = "scalar" THEN Fail(ScalarErr) ELSE LglsV(<<K = <<>>>>)
    [] ev.op = "list_check_all_size" ->
         LET K == Which(Len(ev.l.xs), LAMBDA k : ev.l.xs[k].s.k = "scalar" \/ Size(ev.l.xs[k]) # ev.p.n) IN
         IF K # <<>> THEN Fail(IF ev.l.xs[K[1]].s.k = "scalar" THEN ScalarErr ELSE {"vctrs_error_assert_size"}) ELSE Ok(NullVec)
    [] ev.op = "vec_check_size" -> IF ev.v.x.s.k = "scalar" THEN ScalarFail ELSE IF Size(ev.v.x) # ev.p.n THEN Fail({"vctrs_error_assert_size"}) ELSE Ok(NullVec)
    [] ev.op = "vec_equal" -> LET r == VecEqual(ev.v.x, ev.v.y, ev.p.na_equal, ev.v.ptype) IN IF r.ok = 2 THEN [all |-> TRUE] ELSE r
    [] ev.op = "vec_detect_missing" -> X(ev, LAMBDA x : LglsV(Missings(x)))
    [] ev.op = "vec_detect_complete" -> X(ev, LAMBDA x : LglsV(Completes(x)))
    [] ev.op = "vec_any_missing" -> X(ev, LAMBDA x : LglsV(<<WhichTrue(Missings(x)) # <<>>>>))
    [] ev.op = "vec_locate_complete" -> X(ev, LAMBDA x : IntsV(WhichTrue(Completes(x))))
    [] ev.op = "vec_slice_complete" -> X(ev, LAMBDA x : Ok(Slice(x, WhichTrue(Completes(x)))))
    [] ev.op = "vec_unique_loc" -> X(ev, LAMBDA x : IntsV(UniqLocs(TLCEval(FirstIx(TLCEval(Keys(x)))))))
    [] ev.op = "vec_unique" -> X(ev, LAMBDA x : Ok(Slice(x, UniqLocs(TLCEval(FirstIx(TLCEval(Keys(x))))))))
    [] ev.op = "vec_unique_count" -> X(ev, LAMBDA x : IntsV(<<Cardinality(Range1(Keys(x)))>>))
    [] ev.op = "vec_duplicate_any" -> X(ev, LAMBDA x : LglsV(<<Cardinality(Range1(Keys(x))) < Size(x)>>))
    [] ev.op = "vec_duplicate_detect" -> X(ev, LAMBDA x : LET F == TLCEval(FirstIx(TLCEval(Keys(x)))) D == TLCEval(DupFirsts(F)) IN LglsV([k \in 1..Len(F) |-> F[k] \in D]))
    [] ev.op = "vec_duplicate_id" -> X(ev, LAMBDA x : IntsV(FirstIx(TLCEval(Keys(x)))))
    [] ev.op = "vec_count" -> X(ev, LAMBDA x :
         LET F == TLCEval(FirstIx(TLCEval(Keys(x)))) U == TLCEval(UniqLocs(F))
             cnt == TLCEval([j \in 1..Len(U) |-> Cardinality({k \in 1..Len(F) : F[k] = U[j]})])
             full(o) == MkDf(<<NmKey, NmCount>>, <<Slice(x, [j \in 1..Len(o) |-> U[o[j]]]), IntVec([j \in 1..Len(o) |-> cnt[o[j]]])>>, Len(o))
             (* descending count, ascending location *)
             bycount == SortSeq(Iota(Len(U)), LAMBDA a, b : cnt[a] > cnt[b] \/ (cnt[a] = cnt[b] /\ a < b))
         IN CASE ev.p.sort = "location" -> Ok(full(Iota(Len(U))))
              [] ev.p.sort = "count" -> Ok(full(bycount))
              [] OTHER -> [ok |-> 1, exp |-> full(Iota(Len(U))),
                           pred |-> ev.ok = 1 /\ LET w == full(Iota(Len(U))) a == Values(ev.out) b == Values(w) IN a.s = b.s /\ IsPerm(a.r, b.r)])
    [] ev.op = "unique_big" -> \* a certificate: linear in the size
         LET ks == TLCEval(Keys(ev.v.x)) id == ev.out.id loc == ev.out.loc S == TLCEval(Range1(loc)) IN
         [ok |-> 1, exp |-> Len(ks),
          pred |-> /\ ev.ok = 1 /\ Len(id) = Len(ks) /\ ev.out.n = Len(loc) /\ ev.out.any = Flag(Len(loc) < Len(ks))
                   /\ \A k \in 1..(Len(loc)-1) : loc[k] < loc[k+1]
                   /\ Cardinality({ks[loc[k]] : k \in 1..Len(loc)}) = Len(loc)
                   /\ \A k \in 1..Len(ks) : id[k] <= k /\ id[k] \in S /\ ks[id[k]] = ks[k]
                   /\ ev.out.match = id
                   /\ Len(ev.out.gid) = Len(id) /\ \A k \in 1..Len(id) : loc[ev.out.gid[k]] = id[k]]
    [] ev.op = "vec_match" -> LET r == VecMatch(ev.v.x, ev.v.y, ev.p.na_equal) IN
         IF r.ok = 2 THEN [all |-> TRUE] ELSE IF r.ok # 1 THEN r ELSE IntsV([k \in 1..Len(r.i) |-> IF r.i[k] = 0 THEN NA ELSE r.i[k]])
    [] ev.op = "vec_in" -> LET r == VecMatch(ev.v.x, ev.v.y, ev.p.na_equal) IN
         IF r.ok = 2 THEN [all |-> TRUE] ELSE IF r.ok # 1 THEN r
         ELSE Ok(LglVec([k \in 1..Len(r.i) |-> IF r.i[k] = NA THEN NA ELSE Flag(r.i[k] # 0)]))
    [] ev.op \in {"vec_set_intersect", "vec_set_difference", "vec_set_union", "vec_set_symmetric_difference"} -> SetOp(ev)
    [] ev.op = "vec_group_id" -> X(ev, LAMBDA x : LET F == TLCEval(FirstIx(TLCEval(Keys(x)))) IN OutIs([i |-> GroupIds(F), n |-> Len(UniqLocs(F))]))
    [] ev.op = "vec_group_loc" -> X(ev, LAMBDA x : LET F == TLCEval(FirstIx(TLCEval(Keys(x)))) IN
         OutIs([key |-> Slice(x, UniqLocs(F)), loc |-> GroupLocs(F), nm |-> "key/loc", c |-> "data.frame"]))
    [] ev.op = "vec_group_rle" -> X(ev, LAMBDA x : LET ks == TLCEval(Keys(x)) F == TLCEval(FirstIx(ks)) g == TLCEval(GroupIds(F)) S == TLCEval(Starts(ks)) IN
         OutIs([group |-> [j \in 1..Len(S) |-> g[S[j]]], length |-> RunSizes(ks), n |-> Len(UniqLocs(F))]))
    [] ev.op = "vec_split" ->
         IF IsScalar(ev.v.x) \/ IsScalar(ev.v.by) THEN (IF "null" \in {ev.v.x.s.k, ev.v.by.s.k} THEN [all |-> TRUE] ELSE Fail({"any"}))
         ELSE IF Size(ev.v.x) # Size(ev.v.by) THEN Fail({"any"})
         ELSE LET F == TLCEval(FirstIx(TLCEval(Keys(ev.v.by)))) g == TLCEval(GroupLocs(F)) IN
              OutIs([key |-> Slice(ev.v.by, UniqLocs(F)), val |-> [j \in 1..Len(g) |-> Slice(ev.v.x, g[j])], nm |-> "key/val", c |-> "data.frame"])
    [] ev.op = "vec_identify_runs" -> X(ev, LAMBDA x : LET f == RunIds(TLCEval(Keys(x))) IN OutIs([i |-> f.i, n |-> f.n]))
    [] ev.op = "vec_run_sizes" -> X(ev, LAMBDA x : IntsV(RunSizes(TLCEval(Keys(x)))))
    [] ev.op = "vec_locate_run_bounds" -> X(ev, LAMBDA x : IntsV(IF ev.p.which = "start" THEN Starts(TLCEval(Keys(x))) ELSE Ends(TLCEval(Keys(x)))))
    [] ev.op = "vec_detect_run_bounds" -> X(ev, LAMBDA x : LET S == TLCEval(Range1(IF ev.p.which = "start" THEN Starts(TLCEval(Keys(x))) ELSE Ends(TLCEval(Keys(x))))) IN LglsV([k \in 1..Size(x) |-> k \in S]))
    [] ev.op = "vec_unrep" -> X(ev, LAMBDA x : LET ks == TLCEval(Keys(x)) S == TLCEval(Starts(ks)) IN Ok(MkDf(<<NmKey, NmTimes>>, <<Slice(x, S), IntVec(RunSizes(ks))>>, Len(S))))
    [] ev.op = "unrep_rep" -> X(ev, LAMBDA x : [ok |-> 1, exp |-> x, pred |-> ev.ok = 1 /\ ev.out.s = x.s /\ Keys(ev.out) = Keys(x)])
    [] ev.op = "vec_rep" -> VecRep(ev.v.x, ev.v.times)
    [] ev.op = "vec_rep_each" -> VecRepEach(ev.v.x, ev.v.times)
    [] ev.op = "vec_fill_missing" -> VecFill(ev.v.x, ev.p.dir, ev.p.max)
    [] ev.op = "vec_expand_grid" -> ExpandGrid(ev.l.xs, ev.ln.xs.n, ev.p.vary, ev.p.repair)
=============================================================================
