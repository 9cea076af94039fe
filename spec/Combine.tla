------------------------------- MODULE Combine -------------------------------
(* C03 assignment, C04 chopping and unchopping, C05 concatenation, C18 interleaving. *)
EXTENDS Order

(* a cast target without levels adopts none when it is part of a larger vector *)
NoLevels(s) == s.k \in {"fct", "ord"} /\ s.l = <<>>
CastInto(x, s) ==
  IF NoLevels(s) /\ x.s.k \in {"chr", "fct", "ord"} /\ (x.s.k = "chr" => IsBare(x.s)) /\ \E k \in 1..Len(x.r) : x.r[k][1] # <<>>
  THEN Fail({"vctrs_error_cast_lossy"}) ELSE CastS(x, s)

(* ---------------- C03 ---------------- *)
LastAt(locs, k) == LET K == {j \in 1..Len(locs) : locs[j] = k} IN IF K = {} THEN 0 ELSE CHOOSE j \in K : \A i \in K : i <= j
(* replace the values of the rows at locs by those of v's rows (same leaves, possibly without names) *)
PutRows(x, locs, v) ==
  LET J == TLCEval(ValLeaves(x.s)) JV == TLCEval(ValLeaves(v.s))
      last == TLCEval([k \in 1..Len(x.r) |-> LastAt(locs, k)])
      pos == TLCEval([j \in {J[q] : q \in 1..Len(J)} |-> JV[SelectInSeq(J, LAMBDA e : e = j)]])
  IN [k \in 1..Len(x.r) |-> LET q == last[k] IN
        IF q = 0 THEN x.r[k] ELSE [j \in 1..Len(x.r[k]) |-> IF j \in DOMAIN pos THEN v.r[q][pos[j]] ELSE x.r[k][j]]]
AssignLocs(x0, locs0, value) == \* locations already resolved
  LET c == TLCEval(CastInto(value, TypeShell(x0.s))) locs == TLCEval(locs0) IN
  IF c.ok \notin {0, 1} THEN Unmodelled ELSE IF c.ok = 0 THEN c
  ELSE LET v == TLCEval(Recycle(c.out, Len(locs))) IN
  IF v.ok = 0 THEN v
  ELSE LET d == TLCEval(DblStore(v.out))
           x == TLCEval(IF d.s.st = "dbl" THEN DblStore(x0) ELSE x0)
       IN Ok([x EXCEPT !.r = PutRows(x, locs, d)])
VecAssign(x, i, value) ==
  IF x.s.k = "null" THEN Ok(NullVec)
  ELSE IF x.s.k = "scalar" \/ IsScalar(value) THEN Fail(ScalarErr \cup (IF x.s.k = "scalar" THEN {} ELSE SubType \cup SubOob \cup SubSize))
  ELSE LET l == TLCEval(AsLoc(i, Size(x), x.hn, x.n)) IN
  IF l.ok = 0 THEN l ELSE AssignLocs(x, l.i, value)
(* with names: the value's names go along *)
AssignNamed(x, i, value) ==
  LET r == VecAssign(x, i, value) IN
  IF r.ok # 1 \/ Size(x) = 0 \/ (IF IsUnspec(value) THEN x.hn = 0 ELSE value.hn = 0) THEN r
  ELSE LET l == AsLoc(i, Size(x), x.hn, x.n)
           vn == IF IsUnspec(value) THEN Const(Len(l.i), <<1>>) ELSE IF Size(value) = 1 THEN Const(Len(l.i), value.n[1]) ELSE value.n
           old == IF x.hn = 1 THEN x.n ELSE Const(Size(x), <<1>>)
       IN Ok([r.out EXCEPT !.hn = 1, !.n = [k \in 1..Size(x) |-> LET q == LastAt(l.i, k) IN IF q = 0 THEN old[k] ELSE vn[q]]])

(* ---------------- names of combined vectors ---------------- *)
AllEmptyN(hn, n) == hn = 0 \/ \A k \in 1..Len(n) : n[k] = <<1>> \/ n[k] = <<>>
Under == <<95>>
GlueOf(spec, outer, inner) == \* inner a name or a position rendered in digits
  CASE spec = "glue" -> outer \o Under \o Body(inner)
    [] spec = "fn" -> inner \o <<64>> \o Body(outer)
    [] OTHER -> outer
(* the names one input contributes: none, or a sequence of n names *)
SpecNames(spec, xsNamed, outer, hn, n, size) ==
  IF spec = "zap" THEN [ok |-> 1, has |-> 0, n |-> <<>>]
  ELSE IF ~xsNamed THEN [ok |-> 1, has |-> hn, n |-> n]
  ELSE IF outer = <<1>> \/ outer = <<>> THEN [ok |-> 1, has |-> 1, n |-> IF hn = 1 THEN n ELSE Const(size, <<1>>)]
  ELSE IF AllEmptyN(hn, n) /\ size = 0 THEN [ok |-> 1, has |-> 1, n |-> <<>>]
  ELSE IF AllEmptyN(hn, n) /\ size = 1 THEN [ok |-> 1, has |-> 1, n |-> <<outer>>]
  ELSE IF spec = "null" THEN Fail({"any"})
  ELSE LET inner == IF AllEmptyN(hn, n) THEN [k \in 1..size |-> Named(DigitsOf(k))] ELSE n IN
       [ok |-> 1, has |-> 1, n |-> [k \in 1..size |-> GlueOf(spec, outer, inner[k])]]
(* ---------------- C04, C05 ---------------- *)
(* records have no names *)
Nameable(s) == s.k \notin {"rcrd", "lt"}
(* place the rows of the (already recycled) inputs at their locations in a vector of size n of the type s; missing inputs contribute nothing *)
Place(xs, named, outer, s, locs, n, spec, repair, castEmpty) ==
  LET N == Len(xs)
      sp == TLCEval([k \in 1..N |-> IF xs[k].s.k = "null" THEN IF castEmpty THEN [ok |-> 1, has |-> 0, n |-> <<>>] ELSE SpecNames(spec, named /\ s.k # "df", IF named THEN outer[k] ELSE <<>>, 0, <<>>, 0)
                                    ELSE SpecNames(spec, named /\ s.k # "df", IF named THEN outer[k] ELSE <<>>, xs[k].hn, xs[k].n, Size(xs[k]))])
      badspec == \E k \in 1..N : sp[k].ok = 0
      rs == TLCEval([k \in 1..N |-> IF xs[k].s.k = "null" \/ (Size(xs[k]) = 0 /\ ~castEmpty) THEN Ok(NullVec) ELSE CastInto(xs[k], s)])
      f == FirstFail(SelectSeq(rs, LAMBDA q : q.ok = 0))
  IN IF badspec THEN Fail({"any"})
     ELSE IF f.ok = 0 THEN (IF \E k \in 1..N : rs[k].ok = 2 THEN Fail({"any"}) ELSE f)
     ELSE IF \E k \in 1..N : rs[k].ok # 1 THEN Unmodelled
     ELSE LET vals == TLCEval([k \in 1..N |-> IF rs[k].out.s.k = "null" THEN <<>> ELSE Values(rs[k].out).r])
              (* the last input and position that writes to row q *)
              src == TLCEval([q \in 1..n |-> LET K == {k \in 1..N : xs[k].s.k # "null" /\ \E j \in 1..Len(locs[k]) : locs[k][j] = q} IN
                                IF K = {} THEN <<0, 0>> ELSE LET k == CHOOSE k \in K : \A i \in K : i <= k IN <<k, LastAt(locs[k], q)>>])
              miss == Values(Slice(Vec(s, <<>>, 0, <<>>), <<NA>>))
              rows == [q \in 1..n |-> IF src[q][1] = 0 \/ vals[src[q][1]] = <<>> THEN miss.r[1] ELSE vals[src[q][1]][src[q][2]]]
              hasn == \E k \in 1..N : sp[k].has = 1
              raw == [q \in 1..n |-> IF src[q][1] = 0 \/ sp[src[q][1]].has = 0 THEN <<1>> ELSE sp[src[q][1]].n[src[q][2]]]
              rep == RepairNames(raw, repair)
          IN IF hasn /\ ~Nameable(s) THEN Fail({"any"})
             ELSE IF hasn /\ rep.ok = 0 THEN rep
             ELSE [ok |-> 1, s |-> miss.s, r |-> rows, hn |-> IF hasn THEN 1 ELSE 0,
                   n |-> IF ~hasn THEN <<>> ELSE IF s.k = "df" THEN UniqueNames(rep.n) ELSE rep.n]
PlaceOk(ev, e) ==
  IF e.ok = 2 THEN [all |-> TRUE]
  ELSE IF e.ok = 0 THEN e
  ELSE [ok |-> 1, exp |-> e,
        pred |-> ev.ok = 1 /\ LET o == TLCEval(Values(ev.out)) IN
           /\ FinaliseS(o.s) = FinaliseS(e.s) /\ o.r = e.r
           /\ (Nameable(e.s) => IF Len(e.r) = 0 THEN ev.out.n = <<>> ELSE ev.out.hn = e.hn /\ ev.out.n = e.n)]
CombineType(xs, ptype) == PtypeCommon(xs, ptype)
VecC(xs, named, outer, ptype, spec, repair) ==
  LET t == CombineType(xs, ptype) IN
  IF t.ok = 2 THEN Unmodelled ELSE IF t.ok = 0 THEN t
  ELSE IF t.s.k = "null" THEN [ok |-> 3]
  ELSE LET sz(k) == IF xs[k].s.k = "null" THEN 0 ELSE Size(xs[k])
           off == TLCEval([k \in 1..Len(xs) |-> SumSeq([j \in 1..(k-1) |-> sz(j)])])
           n == SumSeq([k \in 1..Len(xs) |-> sz(k)])
       IN Place(xs, named, outer, FinaliseS(t.s), [k \in 1..Len(xs) |-> [j \in 1..sz(k) |-> off[k] + j]], n, spec, repair, FALSE)
(* positions given as indices: integers from 1, or missing *)
ChopLoc(i, n) ==
  LET s == AsSubscript(i, FALSE, TRUE, FALSE) IN
  IF s.ok = 0 THEN Fail(SubType)
  ELSE IntLoc([k \in 1..Len(s.e) |-> IntOf(s.e[k])], s.hn, s.n, n, [missing |-> "propagate", negative |-> "error", oob |-> "error", zero |-> "error"])
Unchop(xs, named, outer, is, ptype, spec, repair) ==
  IF Len(xs) # Len(is) THEN Fail({"any"})
  ELSE LET t == CombineType(xs, ptype) IN
  IF t.ok = 2 THEN Unmodelled ELSE IF t.ok = 0 THEN t
  ELSE IF t.s.k = "null" THEN [ok |-> 3]
  ELSE LET n == SumSeq([k \in 1..Len(is) |-> IF is[k].s.k = "scalar" THEN 1 ELSE Size(is[k])])
           ls == TLCEval([k \in 1..Len(is) |-> ChopLoc(is[k], n)])
           f == FirstFail(ls)
       IN IF f.ok = 0 THEN f
          ELSE LET rc == TLCEval([k \in 1..Len(xs) |-> Recycle(xs[k], Len(ls[k].i))]) g == FirstFail(rc) IN
          IF g.ok = 0 THEN Fail({"any"})
          ELSE Place([k \in 1..Len(xs) |-> rc[k].out], named, outer, FinaliseS(t.s), [k \in 1..Len(ls) |-> ls[k].i], n, spec, repair, TRUE)
ChopBy(x, locss) == [k \in 1..Len(locss) |-> Slice(x, locss[k])]
ChopSizes(x, sizes) ==
  LET t == IntArg(sizes) IN
  IF t.ok = 2 THEN Unmodelled ELSE IF t.ok = 0 THEN t
  ELSE LET z == Ints(t.out) IN
  IF BadTimes(z) \/ SumSeq(z) # Size(x) THEN Fail({"any"})
  ELSE [ok |-> 1, l |-> [k \in 1..Len(z) |-> LET o == SumSeq(SubSeq(z, 1, k - 1)) IN [j \in 1..z[k] |-> o + j]]]
ListIs(ev, outs) == [ok |-> 1, exp |-> outs, pred |-> ev.ok = 1 /\ ev.outs = outs /\ ev.on.hn = 0 /\ ev.os.k = "list"]
(* ---------------- C18 ---------------- *)
InterleaveVecs(xs0, named, outer, ptype, spec, repair) ==
  LET K == Which(Len(xs0), LAMBDA k : xs0[k].s.k # "null")
      xs == [j \in 1..Len(K) |-> xs0[K[j]]] m == Len(K)
      c == SizeCommon(xs)
  IN IF \E k \in 1..m : xs[k].s.k = "scalar" THEN Fail({"any"})
     ELSE IF c.ok = 0 THEN Fail({"any"})
     ELSE LET n == IF c.n = NA THEN 0 ELSE c.n
              is == [k \in 1..m |-> IntVec([j \in 1..n |-> k + m * (j - 1)])]
          IN Unchop(xs, named, IF named THEN [j \in 1..m |-> outer[K[j]]] ELSE <<>>, is, ptype, spec, repair)

CombOps == {"vec_assign", "vec_assign_op", "vec_assign_params", "vec_assign_seq", "vec_chop", "vec_chop_idx", "vec_chop_sizes", "vec_chop_seq", "vec_c", "list_unchop", "list_unchop_idx", "chop_unchop", "vec_interleave"}
NullOk(ev, e) == IF e.ok = 3 THEN Ok(NullVec) ELSE PlaceOk(ev, e)
(* durations stored as integers may stay so *)
AnyStore(ev, r) == IF "out" \in DOMAIN r /\ ev.v.x.s.k \in {"dur", "date", "dttm"} /\ ev.v.x.s.st = "int"
                   THEN [ok |-> 1, exp |-> r.out, pred |-> ev.ok = 1 /\ DblStore(ev.out) = DblStore(r.out)] ELSE r
ExpComb(ev) ==
  LET un(r) == IF r.ok = 2 THEN [all |-> TRUE] ELSE r IN
  CASE ev.op \in {"vec_assign", "vec_assign_op"} -> AnyStore(ev, un(VecAssign(ev.v.x, ev.v.i, ev.v.value)))
    [] ev.op = "vec_assign_params" -> un(AssignNamed(ev.v.x, ev.v.i, ev.v.value))
    [] ev.op = "vec_assign_seq" -> AnyStore(ev, un(AssignLocs(ev.v.x, SeqLocs(ev.p.start, ev.p.size, ev.p.inc), ev.v.value)))
    [] ev.op = "vec_chop" -> IF IsScalar(ev.v.x) THEN Fail({"any"}) ELSE ListIs(ev, ChopBy(ev.v.x, [k \in 1..Size(ev.v.x) |-> <<k>>]))
    [] ev.op = "vec_chop_seq" -> ListIs(ev, ChopBy(ev.v.x, [k \in 1..Len(ev.p.starts) |-> SeqLocs(ev.p.starts[k], ev.p.sizes[k], ev.p.incs[k])]))
    [] ev.op = "vec_chop_idx" ->
         IF IsScalar(ev.v.x) THEN Fail({"any"})
         ELSE LET ls == TLCEval([k \in 1..Len(ev.l.indices) |-> ChopLoc(ev.l.indices[k], Size(ev.v.x))]) f == FirstFail(ls) IN
         IF f.ok = 0 THEN f ELSE ListIs(ev, ChopBy(ev.v.x, [k \in 1..Len(ls) |-> ls[k].i]))
    [] ev.op = "vec_chop_sizes" ->
         IF IsScalar(ev.v.x) THEN Fail({"any"})
         ELSE LET z == ChopSizes(ev.v.x, ev.v.sizes) IN
         IF z.ok = 2 THEN [all |-> TRUE] ELSE IF z.ok = 0 THEN z ELSE ListIs(ev, ChopBy(ev.v.x, z.l))
    [] ev.op \in {"vec_c", "list_unchop"} -> NullOk(ev, VecC(ev.l.xs, ev.ln.xs.hn = 1, ev.ln.xs.n, ev.v.ptype, ev.p.spec, ev.p.repair))
    [] ev.op = "list_unchop_idx" -> NullOk(ev, Unchop(ev.l.xs, ev.ln.xs.hn = 1, ev.ln.xs.n, ev.l.indices, ev.v.ptype, ev.p.spec, ev.p.repair))
    [] ev.op = "chop_unchop" -> [ok |-> 1, exp |-> ev.v.x, pred |-> ev.ok = 1 /\ DblStore(ev.out) = DblStore(Canon(ev.v.x))] \* a partition: exactly the vector
    [] ev.op = "vec_interleave" -> NullOk(ev, InterleaveVecs(ev.l.xs, ev.ln.xs.hn = 1, ev.ln.xs.n, ev.v.ptype, ev.p.spec, ev.p.repair))
=============================================================================
