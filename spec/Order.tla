------------------------------- MODULE Order -------------------------------
(* C10: one total preorder on rows behind comparing, ordering, sorting, ranking and locating sorted groups. *)
EXTENDS Relations

Pad7(e) == e \o Const(7 - Len(e), 0)
NmLoc == <<1, 108, 111, 99>>
(* value order of two non-missing elements *)
CmpVal(leaf, a, b) ==
  IF leaf = "dbl" THEN (LET u == NormElem("dbl", a) v == NormElem("dbl", b) IN IF u = v THEN 0 ELSE Lex(Pad7(u), Pad7(v)))
  ELSE Lex(a, b)
(* ---- vec_compare: missing is the smallest (NaN below NA) or makes the comparison missing ---- *)
Level(leaf, e) == IF ~IsMiss(leaf, e) THEN 2 ELSE IF leaf = "dbl" /\ e = <<0>> THEN 0 ELSE 1
CmpEq(leaf, a, b) ==
  LET x == Level(leaf, a) y == Level(leaf, b) IN
  IF x = 2 /\ y = 2 THEN CmpVal(leaf, a, b) ELSE IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
CmpProp(leaf, a, b) == IF IsMiss(leaf, a) \/ IsMiss(leaf, b) THEN NA ELSE CmpVal(leaf, a, b)
RowCompare(KL, a, b, na_equal) ==
  LET c(j) == IF na_equal = 1 THEN CmpEq(KL[j], a[j], b[j]) ELSE CmpProp(KL[j], a[j], b[j])
      J == SelectInSeq(Iota(Len(KL)), LAMBDA j : c(j) # 0)
  IN IF J = 0 THEN 0 ELSE c(J)
RECURSIVE Comparable(_)
Comparable(s) == CASE s.k \in {"df", "rcrd"} -> \A j \in 1..Len(s.h) : Comparable(s.h[j])
                   [] OTHER -> s.st \notin {"cpl", "list"} /\ s.k \notin {"cpl", "list", "lof"}
VecCompare(x0, y0, na_equal, ptype) ==
  IF x0.s.k \in {"scalar", "null"} \/ y0.s.k \in {"scalar", "null"} THEN Fail({"any"})
  ELSE LET c == SizeCommon(<<x0, y0>>) IN
  IF c.ok = 0 THEN c
  ELSE LET rx == Recycle(x0, c.n) ry == Recycle(y0, c.n) bs == Both(rx.out, ry.out, ptype, TRUE) IN
  IF bs.ok # 1 THEN bs
  ELSE IF ~Comparable(bs.x.s) THEN
       LET KL == TLCEval(KeyLeaves(bs.x.s)) a == TLCEval(Keys(bs.x)) b == TLCEval(Keys(bs.y))
           j0 == SelectInSeq(KL, LAMBDA l : l \in {"cpl", "list"}) K == SubSeq(KL, 1, j0 - 1)
           r == TLCEval([k \in 1..c.n |-> RowCompare(K, a[k], b[k], na_equal)])
       IN (* the column that cannot be compared may go unnoticed when the ones before it settle every row *)
       IF j0 > 1 /\ bs.x.s.k \in {"df", "rcrd"} /\ \A k \in 1..c.n : r[k] # 0 THEN [ok |-> 6, out |-> IntVec(r)] ELSE Fail({"any"})
  ELSE LET KL == TLCEval(KeyLeaves(bs.x.s)) a == TLCEval(Keys(bs.x)) b == TLCEval(Keys(bs.y)) IN
       Ok(IntVec([k \in 1..c.n |-> RowCompare(KL, a[k], b[k], na_equal)]))

(* ---- the total preorder of sorting ---- *)
(* how many ordering columns each top-level column has *)
ListArray(s) == s.k = "list" /\ s.nd > 1 \* the rows of a list array are ordered as a whole
NKeyLeaves(s) == IF ListArray(s) THEN 1 ELSE Len(KeyLeaves(s))
Expand(s, arg) == (* per leaf argument: a single one, or one per column of a data frame *)
  IF Len(arg) = 1 THEN [ok |-> 1, a |-> Const(NKeyLeaves(s), arg[1])]
  ELSE IF s.k # "df" \/ Len(arg) = 0 \/ Len(arg) # Len(s.h) THEN [ok |-> 0]
  ELSE [ok |-> 1, a |-> Concat([j \in 1..Len(s.h) |-> Const(NKeyLeaves(s.h[j]), arg[j])])]
OLeaf(s) == IF ListArray(s) THEN <<"int">> ELSE [j \in 1..Len(KeyLeaves(s)) |-> IF KeyLeaves(s)[j] = "list" THEN "int" ELSE KeyLeaves(s)[j]]
LowerStr(e) == [k \in 1..Len(e) |-> IF k > 1 /\ e[k] >= 65 /\ e[k] <= 90 THEN e[k] + 32 ELSE e[k]]
(* lists are ordered by first appearance *)
OKeys(x, lower) ==
  IF ListArray(x.s) THEN LET ks == TLCEval(Keys(x)) ids == TLCEval(FirstIx(ks)) IN [k \in 1..Len(ks) |-> IF RowMissing(KeyLeaves(x.s), ks[k]) THEN <<<<>>>> ELSE <<<<ids[k]>>>>]
  ELSE
  LET KL == TLCEval(KeyLeaves(x.s)) ks == TLCEval(Keys(x))
      ids == TLCEval([j \in {q \in 1..Len(KL) : KL[q] = "list"} |-> FirstIx([k \in 1..Len(ks) |-> ks[k][j]])])
  IN [k \in 1..Len(ks) |-> [j \in 1..Len(KL) |->
        IF KL[j] = "list" THEN (IF IsMiss("list", ks[k][j]) THEN <<>> ELSE <<ids[j][k]>>)
        ELSE IF lower /\ KL[j] = "chr" THEN LowerStr(ks[k][j])
        ELSE ks[k][j]]]
(* how missing: 0 a value, 1 NaN, 2 NA; a complex with one missing part counts as missing that way in both, with two it has one per part *)
PartRank(t) == IF t = 1 THEN 0 ELSE IF t = 0 THEN 1 ELSE 2
CplRank(e, nd) ==
  LET r == PartRank(e[1]) i == PartRank(e[6]) IN
  IF r = 0 /\ i = 0 THEN 0 ELSE IF nd = 0 THEN 8
  ELSE IF r = 0 THEN 4 * i ELSE IF i = 0 THEN 4 * r ELSE 3 * r + i
ORank(leaf, e, nd) ==
  IF ~IsMiss(leaf, e) THEN 0
  ELSE IF leaf = "cpl" THEN CplRank(e, nd)
  ELSE IF nd = 1 /\ leaf = "dbl" /\ e = <<0>> THEN 1 ELSE 2
OCmp(leaf, a, b, dec, nal, nd) ==
  LET x == ORank(leaf, a, nd) y == ORank(leaf, b, nd) last == (dec = 1) # (nal = 1) IN
  IF x = 0 /\ y = 0 THEN (IF dec = 1 THEN 0 - CmpVal(leaf, a, b) ELSE CmpVal(leaf, a, b))
  ELSE IF x = y THEN 0
  ELSE IF (x < y) = last THEN -1 ELSE 1
RowOCmp(OL, a, b, dec, nal, nd) ==
  LET J == SelectInSeq(Iota(Len(OL)), LAMBDA j : OCmp(OL[j], a[j], b[j], dec[j], nal[j], nd) # 0) IN
  IF J = 0 THEN 0 ELSE OCmp(OL[J], a[J], b[J], dec[J], nal[J], nd)
(* o lists 1..n such that rows never decrease, and equal rows stay in their original order *)
IsOrder(o, n, C(_, _)) ==
  /\ Len(o) = n /\ Range1(o) = 1..n
  /\ \A k \in 1..(n-1) : LET c == C(o[k], o[k+1]) IN c < 0 \/ (c = 0 /\ o[k] < o[k+1])
SortLocs(n, C(_, _)) == SortSeq(Iota(n), LAMBDA a, b : C(a, b) < 0 \/ (C(a, b) = 0 /\ a < b))
OrderArgs(x, p) ==
  LET d == Expand(x.s, p.dec) l == Expand(x.s, p.nal) IN
  IF d.ok = 0 \/ l.ok = 0 THEN [ok |-> 0] ELSE [ok |-> 1, dec |-> d.a, nal |-> l.a]
GroupBounds(o, C(_, _)) == Which(Len(o), LAMBDA k : k = 1 \/ C(o[k-1], o[k]) # 0)

Rank(o, S, ties, n) == \* o the order, S the starts of its groups
  LET g(k) == Cardinality({j \in 1..Len(S) : S[j] <= k})
      gs == TLCEval([k \in 1..n |-> g(k)])
      inv == TLCEval([q \in 1..n |-> SelectInSeq(o, LAMBDA e : e = q)])
  IN [q \in 1..n |-> LET k == inv[q] j == gs[k] IN
        CASE ties = "min" -> S[j] [] ties = "max" -> (IF j = Len(S) THEN n ELSE S[j+1] - 1) [] ties = "sequential" -> k [] OTHER -> j]

OrderOps == {"vec_compare", "vec_order_radix", "vec_order", "vec_sort", "vec_sort_radix", "vec_rank", "vec_locate_sorted_groups", "vec_order_info"}
IntsOf(v) == Ints(v)
ExpOrd(ev) ==
  IF ev.op = "vec_compare" THEN (LET r == VecCompare(ev.v.x, ev.v.y, ev.p.na_equal, ev.v.ptype) IN IF r.ok = 2 THEN [all |-> TRUE] ELSE IF r.ok = 6 THEN [all |-> ev.mut = 0 /\ (ev.ok = 0 \/ ev.out = r.out), exp |-> r.out] ELSE r)
  ELSE IF IsScalar(ev.v.x) THEN (IF ev.v.x.s.k = "null" THEN [all |-> TRUE] ELSE Fail({"any"}))
  ELSE
  LET x == ev.v.x p == ev.p n == Size(x)
      A == OrderArgs(x, p)
  IN IF A.ok = 0 THEN Fail({"any"})
  ELSE
  LET OL == TLCEval(OLeaf(x.s)) ks == TLCEval(OKeys(x, p.collate = 1))
      C(a, b) == RowOCmp(OL, ks[a], ks[b], A.dec, A.nal, p.nd)
      (* base ordering may order NaN and NA among themselves as it likes *)
      Bok(o) == Len(o) = n /\ Range1(o) = 1..n /\ \A k \in 1..(n-1) : LET c == C(o[k], o[k+1]) IN
                  c < 0 \/ (c = 0 /\ (o[k] < o[k+1] \/ ks[o[k]] # ks[o[k+1]]))
  IN
  CASE ev.op = "vec_order_radix" -> [ok |-> 1, exp |-> SortLocs(n, C), pred |-> ev.ok = 1 /\ ev.out = IntVec(Ints(ev.out)) /\ IsOrder(Ints(ev.out), n, C)]
    [] ev.op = "vec_order" -> [ok |-> 1, exp |-> SortLocs(n, C), pred |-> ev.ok = 1 /\ ev.out = IntVec(Ints(ev.out)) /\ Bok(Ints(ev.out))]
    [] ev.op = "vec_sort_radix" -> Ok(Slice(x, SortLocs(n, C)))
    [] ev.op = "vec_sort" ->
         LET o == TLCEval(SortLocs(n, C)) e == TLCEval(Slice(x, o)) IN
         IF \E k \in 1..(n-1) : C(o[k], o[k+1]) = 0 /\ ks[o[k]] # ks[o[k+1]]
         THEN [ok |-> 1, exp |-> e, pred |-> ev.ok = 1 /\ ev.out.s = e.s /\ Size(ev.out) = n] ELSE Ok(e)
    [] ev.op = "vec_order_info" ->
         [ok |-> 1, exp |-> SortLocs(n, C),
          pred |-> ev.ok = 1 /\ IsOrder(ev.out.o, n, C) /\ LET S == TLCEval(GroupBounds(ev.out.o, C)) IN
             /\ ev.out.sizes = [j \in 1..Len(S) |-> (IF j = Len(S) THEN n + 1 ELSE S[j+1]) - S[j]]
             /\ ev.out.max = <<MaxSeq(ev.out.sizes)>>]
    [] ev.op = "vec_rank" ->
         LET K == IF p.incomplete = "na" THEN Which(n, LAMBDA k : ~RowIncomplete(KeyLeaves(x.s), Keys(x)[k])) ELSE Iota(n)
             kk == TLCEval(IF p.incomplete = "na" THEN OKeys(Slice(x, K), p.collate = 1) ELSE ks)
             D(a, b) == RowOCmp(OL, kk[a], kk[b], A.dec, A.nal, p.nd)
             o == TLCEval(SortLocs(Len(K), D))
             r == TLCEval(Rank(o, TLCEval(GroupBounds(o, D)), p.ties, Len(K)))
         IN IntsV([k \in 1..n |-> LET q == SelectInSeq(K, LAMBDA e : e = k) IN IF q = 0 THEN NA ELSE r[q]])
    [] ev.op = "vec_locate_sorted_groups" ->
         LET o == TLCEval(SortLocs(n, C)) S == TLCEval(GroupBounds(o, C)) IN
         Ok([key |-> Slice(x, [j \in 1..Len(S) |-> o[S[j]]]),
             loc |-> [j \in 1..Len(S) |-> SubSeq(o, S[j], IF j = Len(S) THEN n ELSE S[j+1] - 1)], nm |-> "key/loc", c |-> "data.frame"])
=============================================================================
