------------------------------ MODULE Interval ------------------------------
(* C15: half-open intervals [start, end). End points are reduced to integers that preserve their order. *)
EXTENDS Join

(* I = [n, s, e: end points, m: missing, lo, up: bounds (0 when absent)] from vectors of one type *)
IvOf(x, y, lower, upper) ==
  LET all == TLCEval(Vec(x.s, x.r \o y.r \o lower \o upper, 0, <<>>))
      KL == TLCEval(KeyLeaves(x.s)) ks == TLCEval(Keys(all)) n == Len(x.r) N == Len(all.r)
      o == TLCEval(SortLocs(N, LAMBDA a, b : RowCompare(KL, ks[a], ks[b], 1)))
      rk == TLCEval(FoldLeft(LAMBDA acc, k : Append(acc, IF k = 1 THEN 1 ELSE IF RowCompare(KL, ks[o[k-1]], ks[o[k]], 1) = 0 THEN acc[k-1] ELSE acc[k-1] + 1), <<>>, Iota(N)))
      r == TLCEval([q \in 1..N |-> rk[SelectInSeq(o, LAMBDA e : e = q)]])
      miss(q) == RowMissing(KL, ks[q])
      part(q) == ~miss(q) /\ RowIncomplete(KL, ks[q])
  IN [n |-> n, s |-> [k \in 1..n |-> r[k]], e |-> [k \in 1..n |-> r[n + k]], m |-> [k \in 1..n |-> miss(k)],
      lo |-> IF lower = <<>> THEN 0 ELSE r[2 * n + 1], up |-> IF upper = <<>> THEN 0 ELSE r[N],
      badlo |-> lower # <<>> /\ RowIncomplete(KL, ks[2 * n + 1]), badup |-> upper # <<>> /\ RowIncomplete(KL, ks[N]),
      sane |-> \A k \in 1..n : ~part(k) /\ ~part(n + k) /\ miss(k) = miss(n + k) /\ (miss(k) \/ r[k] < r[n + k])]

IvOrder(I) == SelectSeq(SortLocs(I.n, LAMBDA a, b : IF I.s[a] # I.s[b] THEN I.s[a] - I.s[b] ELSE I.e[a] - I.e[b]), LAMBDA k : ~I.m[k])
(* sweep: groups of [s, e: the intervals that give the end points, i: the members] *)
IvGroups(I, abut) ==
  FoldLeft(LAMBDA acc, k :
    IF acc = <<>> THEN <<[s |-> k, e |-> k, i |-> <<k>>]>>
    ELSE LET g == acc[Len(acc)] IN
         IF I.s[k] < I.e[g.e] \/ (abut /\ I.s[k] = I.e[g.e])
         THEN [acc EXCEPT ![Len(acc)] = [s |-> g.s, e |-> IF I.e[k] > I.e[g.e] THEN k ELSE g.e, i |-> Append(g.i, k)]]
         ELSE Append(acc, [s |-> k, e |-> k, i |-> <<k>>]), <<>>, IvOrder(I))
IvMissing(I) == Which(I.n, LAMBDA k : I.m[k])
IvAll(I, abut, missing) ==
  IvGroups(I, abut) \o (LET M == IvMissing(I) IN IF missing = "group" /\ M # <<>> THEN <<[s |-> M[1], e |-> M[Len(M)], i |-> M]>> ELSE <<>>)
(* the gaps between the merged intervals, within the bounds; an end point is the interval that gives it, 0 the lower and -1 the upper bound *)
IvGaps(I) ==
  LET G == TLCEval(IvGroups(I, TRUE)) n == Len(G)
      lo == IF I.lo # 0 THEN I.lo ELSE IF n = 0 THEN 0 ELSE I.s[G[1].s]
      up == IF I.up # 0 THEN I.up ELSE IF n = 0 THEN 0 ELSE I.e[G[n].e]
      (* gap k lies between groups k and k + 1 *)
      raw(k) == [a |-> IF k = 0 THEN lo ELSE I.e[G[k].e], b |-> IF k = n THEN up ELSE I.s[G[k+1].s],
                 s |-> IF k = 0 THEN 0 ELSE G[k].e, e |-> IF k = n THEN -1 ELSE G[k+1].s]
      clip(g) == [a |-> IF g.a >= lo THEN g.a ELSE lo, b |-> IF g.b <= up THEN g.b ELSE up, s |-> IF g.a >= lo THEN g.s ELSE 0, e |-> IF g.b <= up THEN g.e ELSE -1]
  IN IF lo = 0 \/ up = 0 \/ lo >= up THEN <<>>
     ELSE SelectSeq([k \in 1..(n+1) |-> clip(raw(k-1))], LAMBDA g : g.a < g.b)
Encloses(I, j, k) == I.s[j] <= I.s[k] /\ I.e[j] >= I.e[k]
IvContainers(I) ==
  LET C == Which(I.n, LAMBDA k : ~I.m[k] /\ \A j \in 1..I.n : j # k /\ ~I.m[j] /\ Encloses(I, j, k) => Encloses(I, k, j) /\ k < j)
      M == IvMissing(I)
  IN SortSeq(C, LAMBDA a, b : I.s[a] < I.s[b]) \o (IF M = <<>> THEN <<>> ELSE <<M[1]>>)

IvOps == {"vec_interval_groups", "vec_interval_locate_groups", "vec_interval_complement", "vec_interval_locate_containers"}
ColIs(o, v) == FinaliseS(o.s) = FinaliseS(v.s) /\ Values(o).r = Values(v).r /\ o.hn = v.hn /\ o.n = v.n
PairIs(ev, a, b) == [ok |-> 1, exp |-> <<a, b>>, pred |-> ev.ok = 1 /\ ev.out.c = "data.frame" /\ ev.out.nm = "start/end" /\ ColIs(ev.out.start, a) /\ ColIs(ev.out.end, b)]
(* the complement's values; its names say nothing *)
ValIs(o, v) == LET w == TLCEval(Values(o)) IN FinaliseS(w.s) = FinaliseS(v.s) /\ w.r = v.r
GapIs(ev, a, b) == [ok |-> 1, exp |-> <<a, b>>, pred |-> ev.ok = 1 /\ ev.out.c = "data.frame" /\ ev.out.nm = "start/end" /\ ValIs(ev.out.start, a) /\ ValIs(ev.out.end, b)]
ExpIv(ev) ==
  LET p == ev.p x0 == ev.v.start y0 == ev.v.end bs == Both(x0, y0, NullVec, FALSE) IN
  IF "null" \in {x0.s.k, y0.s.k} \/ bs.ok = 2 THEN [all |-> TRUE]
  ELSE IF bs.ok # 1 THEN Fail(bs.err)
  ELSE IF ~Comparable(bs.x.s) THEN (IF bs.x.s.k \in {"df", "rcrd"} THEN [all |-> TRUE] ELSE Fail({"any"}))
  ELSE LET cmpl == ev.op = "vec_interval_complement"
           bound(v) == IF ~cmpl \/ v.s.k = "null" THEN Ok(NullVec) ELSE IF v.s.k = "scalar" THEN Fail({"any"}) ELSE IF Size(v) # 1 THEN Fail({"any"}) ELSE CastS(v, bs.x.s)
           lo == TLCEval(bound(IF cmpl THEN ev.v.lower ELSE NullVec)) up == TLCEval(bound(IF cmpl THEN ev.v.upper ELSE NullVec))
           rows(b) == IF b.out.s.k = "null" THEN <<>> ELSE b.out.r
       IN
  IF lo.ok = 0 \/ up.ok = 0 THEN Fail({"any"}) ELSE IF lo.ok # 1 \/ up.ok # 1 THEN [all |-> TRUE]
  ELSE IF cmpl /\ \E b \in {lo, up} : rows(b) # <<>> /\ RowIncomplete(KeyLeaves(bs.x.s), Keys(b.out)[1]) THEN Fail({"any"})
  ELSE IF Size(bs.x) # Size(bs.y)
  THEN (IF cmpl /\ ev.v.lower.s.k # "null" /\ ev.v.upper.s.k # "null" THEN [all |-> TRUE] \* an empty range needs no intervals
        ELSE Fail({"any"}))
  ELSE LET I == TLCEval(IvOf(bs.x, bs.y, rows(lo), rows(up))) IN
  IF ~I.sane THEN [all |-> TRUE] \* start < end, both missing or both complete: the documented assumptions
  ELSE
  CASE ev.op = "vec_interval_groups" ->
         LET G == TLCEval(IvAll(I, p.abutting = 1, p.missing)) IN
         PairIs(ev, Slice(x0, [k \in 1..Len(G) |-> G[k].s]), Slice(y0, [k \in 1..Len(G) |-> G[k].e]))
    [] ev.op = "vec_interval_locate_groups" ->
         LET G == TLCEval(IvAll(I, p.abutting = 1, p.missing)) IN
         LET q == PairIs(ev, Slice(x0, [k \in 1..Len(G) |-> G[k].s]), Slice(y0, [k \in 1..Len(G) |-> G[k].e])) loc == [k \in 1..Len(G) |-> G[k].i] IN
         [q EXCEPT !.exp = <<q.exp, loc>>, !.pred = q.pred /\ ev.out.loc = loc /\ ev.out.onm = "key/loc" /\ ev.out.oc = "data.frame"]
    [] ev.op = "vec_interval_complement" ->
         LET G == TLCEval(IvGaps(I)) X0 == TLCEval(Values(bs.x)) Y == TLCEval(Values(bs.y))
             a(g) == IF g.s = 0 THEN Values(lo.out).r[1] ELSE Y.r[g.s]
             b(g) == IF g.e = -1 THEN Values(up.out).r[1] ELSE X0.r[g.e]
         IN GapIs(ev, [Y EXCEPT !.r = [k \in 1..Len(G) |-> a(G[k])]], [X0 EXCEPT !.r = [k \in 1..Len(G) |-> b(G[k])]])
    [] ev.op = "vec_interval_locate_containers" -> Ok(IntVec(IvContainers(I)))
=============================================================================
