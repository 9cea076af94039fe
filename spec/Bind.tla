--------------------------------- MODULE Bind ---------------------------------
(* C16 binding rows and columns, C22 building data frames. *)
EXTENDS Naming

ChrOf(ns) == Vec(BareShell("chr"), [k \in 1..Len(ns) |-> <<ns[k]>>], 0, <<>>)
Outer(on, k) == IF on.hn = 1 THEN on.n[k] ELSE <<1>>
RenameDf(v, ns) == [v EXCEPT !.s.l = ns]
(* the columns of a matrix; cn its column names, <<>> if there are none *)
MatNative == {"lgl", "int", "dbl", "cpl", "raw", "chr", "list"}
MatCols(x, cn) == LET keep == x.s.st = "list" /\ x.hn = 1 /\ (Len(x.r) # 1 \/ cn = <<>>) IN \* only lists keep row names as element names
  [j \in 1..x.s.d[1] |-> Vec(BareShell(x.s.st), [k \in 1..Len(x.r) |-> <<x.r[k][j]>>], IF keep THEN 1 ELSE 0, IF keep THEN x.n ELSE <<>>)]
MatNames(x, cn) == IF cn = <<>> THEN Const(x.s.d[1], <<1>>) ELSE MinimalNames(cn)

(* ---------------- rows ---------------- *)
(* an input as a data frame: data frames and matrices as they are, a vector as one row; unspecified vectors fit any columns *)
AsRow(x, cn, repair) ==
  IF x.s.k = "null" THEN Ok(x)
  ELSE IF x.s.k = "scalar" THEN Fail({"any"})
  ELSE IF IsUnspec(x) /\ x.hn = 0 THEN Ok(x)
  ELSE IF x.s.k = "df" THEN LET r == RepairNames(x.s.l, repair) IN IF r.ok = 0 THEN r ELSE Ok(RenameDf(x, r.n))
  ELSE IF x.s.nd > 2 THEN Fail({"any"})
  ELSE IF x.s.nd = 2 THEN
    (IF x.s.k \notin MatNative THEN Unmodelled
     ELSE LET r == RepairNames(MatNames(x, cn), repair) IN
          IF r.ok = 0 THEN r
          ELSE LET d == MkDf(r.n, MatCols(x, cn), Len(x.r)) IN
               Ok(IF x.hn = 1 /\ AllDistinct(x.n) THEN [d EXCEPT !.hn = 1, !.n = x.n] ELSE d))
  ELSE LET r == RepairNames(OwnNames(x), repair) u == Unnamed(x) IN
       IF r.ok = 0 THEN r ELSE Ok(MkDf(r.n, [j \in 1..Size(x) |-> Slice(u, <<j>>)], 1))
(* all rows at the type ft, one input after the other; mode "zap": outer names are dropped, "null": they become row names,
   "col": the column `to` identifies the input *)
RbindAs(vs, on, ft, mode, to, spec) ==
  LET N == Len(vs)
      \* a column of identifiers that the type lacks comes first; a column of that name in an input is replaced, but must fit
      add == mode = "col" /\ PosOf(ft.l, to) = 0
      idS == IF on.hn = 1 THEN BareShell("chr") ELSE BareShell("int")
      to1 == IF ~add THEN ft ELSE [ft EXCEPT !.l = <<to>> \o @, !.h = <<idS>> \o @, !.x = <<0>> \o @]
      rs == TLCEval([k \in 1..N |-> IF vs[k].s.k = "null" THEN Ok(NullVec) ELSE CastS(vs[k], to1)])
      f == FirstFail(SelectSeq(rs, LAMBDA q : q.ok = 0))
      sz == [k \in 1..N |-> IF vs[k].s.k = "null" THEN 0 ELSE Size(vs[k])]
      K == TLCEval(Which(N, LAMBDA k : sz[k] > 0)) \* inputs that contribute
      n == SumSeq(sz)
  IN IF f.ok = 0 THEN (IF \E k \in 1..N : rs[k].ok = 2 THEN Fail({"any"}) ELSE f)
     ELSE IF \E k \in 1..N : rs[k].ok # 1 THEN Unmodelled
     ELSE LET named == mode = "null" /\ on.hn = 1
              sp == TLCEval([j \in 1..Len(K) |-> LET v == vs[K[j]] IN SpecNames(spec, named, Outer(on, K[j]), v.hn, v.n, sz[K[j]])])
              has == \E j \in 1..Len(K) : sp[j].has = 1
              rn == Concat([j \in 1..Len(K) |-> IF sp[j].has = 1 THEN MinimalNames(sp[j].n) ELSE Const(sz[K[j]], <<1>>)])
              s0 == Values(Slice(Vec(to1, <<>>, 0, <<>>), <<NA>>)).s
              base == TLCEval(Vec(s0, Concat([j \in 1..Len(K) |-> Values(rs[K[j]].out).r]), 0, <<>>))
              id == TLCEval(IF on.hn = 1 THEN ChrOf(Concat([j \in 1..Len(K) |-> Const(sz[K[j]], on.n[K[j]])])) ELSE IntVec(Concat([j \in 1..Len(K) |-> Const(sz[K[j]], K[j])])))
              cols == TLCEval(ColVecs(base)) p == IF mode = "col" THEN PosOf(s0.l, to) ELSE 0
              out == IF mode # "col" THEN base
                     ELSE FromCols(s0, [cols EXCEPT ![p] = id], n)
          IN IF \E j \in 1..Len(K) : sp[j].ok = 0 THEN Fail({"any"})
             ELSE [ok |-> 1, s |-> out.s, r |-> out.r, hn |-> IF has THEN 1 ELSE 0, n |-> IF has THEN UniqueNames(rn) ELSE <<>>]
Rbind(xs, on, cns, ptype, mode, to, spec, repair) ==
  LET N == Len(xs)
      rows == TLCEval([k \in 1..N |-> AsRow(xs[k], cns[k], repair)]) f == FirstFail(SelectSeq(rows, LAMBDA q : q.ok = 0))
  IN IF repair = "minimal" \/ \E k \in 1..N : xs[k].s.k = "scalar" THEN Fail({"any"})
     ELSE IF \E k \in 1..N : rows[k].ok = 2 THEN Unmodelled
     ELSE IF f.ok = 0 THEN f
     ELSE IF \E k \in 1..N : rows[k].out.s.k = "df" /\ ~AllDistinct(rows[k].out.s.l) THEN Unmodelled \* a custom repair left duplicates
     ELSE LET vs == TLCEval([k \in 1..N |-> rows[k].out]) t0 == PtypeCommon(vs, ptype) IN
  IF t0.ok # 1 THEN t0
  ELSE IF t0.s.k = "null" THEN [ok |-> 1, s |-> MkDf(<<>>, <<>>, 0).s, r |-> <<>>, hn |-> 0, n |-> <<>>]
  ELSE LET one == RepairNames(<<<<1>>>>, repair) \* nothing but unspecified vectors: one column
           t1 == IF ~(IsUns(t0.s) \/ t0.s = LglShell) THEN t0 ELSE IF one.ok = 0 THEN one ELSE OkS(MkDf(one.n, <<LglVec(<<NA>>)>>, 1).s)
       IN IF t1.ok = 0 THEN t1
          ELSE IF t1.s.k = "df" /\ ~AllDistinct(t1.s.l) THEN Unmodelled
          ELSE IF t1.s.k # "df" \/ (spec = "zap" /\ mode = "col") THEN Fail({"any"})
          ELSE RbindAs(vs, on, FinaliseS(t1.s), mode, to, spec)
RbindOk(ev, e) ==
  IF e.ok = 2 THEN [all |-> TRUE] ELSE IF e.ok = 0 THEN e
  ELSE [ok |-> 1, exp |-> e,
        pred |-> ev.ok = 1 /\ LET o == TLCEval(Values(DblStore(ev.out))) IN
           FinaliseS(o.s) = FinaliseS(DblStore(Vec(e.s, <<>>, 0, <<>>)).s) /\ o.r = e.r /\ ev.out.hn = e.hn /\ ev.out.n = e.n]

(* ---------------- columns ---------------- *)
Container(x) == IF x.s.k = "df" THEN Vec([x.s EXCEPT !.l = <<>>, !.h = <<>>, !.x = <<>>], <<>>, 0, <<>>) ELSE NullVec
(* the columns one (recycled) input contributes *)
AsCols(x, outer, cn) ==
  IF x.s.k = "df" THEN (IF outer = <<1>> THEN [ok |-> 1, c |-> ColVecs(x), n |-> x.s.l] ELSE [ok |-> 1, c |-> <<x>>, n |-> <<outer>>])
  ELSE IF x.s.nd > 2 THEN Fail({"any"})
  ELSE IF x.s.nd = 2 THEN (IF outer # <<1>> THEN [ok |-> 1, c |-> <<x>>, n |-> <<outer>>]
                           ELSE IF x.s.k \notin MatNative THEN Unmodelled ELSE [ok |-> 1, c |-> MatCols(x, cn), n |-> MatNames(x, cn)])
  ELSE [ok |-> 1, c |-> <<x>>, n |-> <<outer>>]
Cbind(xs0, on, cns0, ptype, size, repair) ==
  LET K == Which(Len(xs0), LAMBDA k : xs0[k].s.k # "null")
      xs == [j \in 1..Len(K) |-> xs0[K[j]]] N == Len(K)
      t == PtypeCommon([j \in 1..N |-> Container(xs[j])], Container(ptype))
      c == IF size # NA THEN [ok |-> 1, n |-> size] ELSE SizeCommon(xs)
      n == IF c.ok = 0 \/ c.n = NA THEN 0 ELSE c.n
      rc == TLCEval([j \in 1..N |-> Recycle(xs[j], n)]) f == FirstFail(rc)
      D == Which(N + 1, LAMBDA j : IF j > N THEN ptype.s.k = "df" /\ ptype.hn = 1 ELSE xs[j].s.k = "df" /\ xs[j].hn = 1)
      rn0 == IF D = <<>> THEN <<>> ELSE IF D[1] > N THEN ptype.n ELSE xs[D[1]].n
      badrn == D # <<>> /\ Len(rn0) \notin {1, n}
      rn == IF Len(rn0) = n THEN rn0 ELSE UniqueNames(Const(n, rn0[1]))
  IN IF \E j \in 1..N : xs[j].s.k = "scalar" THEN Fail({"any"})
     ELSE IF c.ok = 0 THEN c ELSE IF n < 0 THEN Fail({"any"})
     ELSE IF f.ok = 0 THEN (IF \E j \in 1..N : xs[j].s.nd > 2 THEN Fail({"any"}) ELSE f) ELSE IF badrn THEN Fail({"any"}) ELSE IF t.ok # 1 THEN t
     ELSE LET cs == TLCEval([j \in 1..N |-> AsCols(rc[j].out, Outer(on, K[j]), cns0[K[j]])]) g == FirstFail(SelectSeq(cs, LAMBDA q : q.ok = 0)) IN
     IF \E j \in 1..N : cs[j].ok = 2 THEN Unmodelled
     ELSE IF g.ok = 0 THEN g
     ELSE LET cols == TLCEval(Concat([j \in 1..N |-> cs[j].c])) r == RepairNames(Concat([j \in 1..N |-> cs[j].n]), repair)
              s == IF t.s.k = "null" THEN MkDf(<<>>, <<>>, 0).s ELSE t.s
          IN IF r.ok = 0 THEN r
             ELSE LET o == FromCols([s EXCEPT !.l = r.n], cols, n) IN Ok(Canon(IF D = <<>> THEN o ELSE [o EXCEPT !.hn = 1, !.n = rn]))

(* ---------------- C22 ---------------- *)
DfList(xs0, on, size, unpack, repair) ==
  LET K == Which(Len(xs0), LAMBDA k : xs0[k].s.k # "null")
      xs == [j \in 1..Len(K) |-> xs0[K[j]]] N == Len(K)
      c == IF size # NA THEN [ok |-> 1, n |-> size] ELSE SizeCommon(xs)
      n == IF c.ok = 0 \/ c.n = NA THEN 0 ELSE c.n
      rc == TLCEval([j \in 1..N |-> Recycle(xs[j], n)]) f == FirstFail(rc)
      splice(j) == unpack = 1 /\ xs[j].s.k = "df" /\ Outer(on, K[j]) = <<1>>
  IN IF \E j \in 1..N : xs[j].s.k = "scalar" THEN Fail({"any"})
     ELSE IF c.ok = 0 THEN c ELSE IF n < 0 THEN Fail({"any"})
     ELSE IF f.ok = 0 THEN f
     ELSE LET cols == TLCEval(Concat([j \in 1..N |-> IF splice(j) THEN ColVecs(rc[j].out) ELSE <<rc[j].out>>]))
              r == RepairNames(Concat([j \in 1..N |-> IF splice(j) THEN rc[j].out.s.l ELSE <<Outer(on, K[j])>>]), repair)
          IN IF r.ok = 0 THEN r ELSE [ok |-> 1, c |-> cols, n |-> r.n, size |-> n]
DataFrame(xs, on, size, repair) ==
  LET d == DfList(xs, on, size, 1, repair) IN
  IF d.ok # 1 THEN d ELSE Ok(Canon(MkDf(d.n, d.c, d.size)))
(* a data frame from columns as they are; p: n (-2: taken from the columns, -3: not a size), class, foo and the row names given *)
NewDf(cols, on, p) ==
  LET n == IF p.rn # <<>> THEN Len(p.rn) ELSE IF p.n # -2 THEN p.n ELSE IF cols = <<>> THEN 0 ELSE Size(cols[1])
      d == MkDf(IF p.names # <<>> THEN p.names ELSE on.n, cols, n)
      e == [d EXCEPT !.s.c = IF p.class = "" THEN "data.frame" ELSE p.class \o "/data.frame", !.s.a = IF p.foo = 1 THEN "foo:17,1,1,98,97,114,-1,0" ELSE ""]
  IN IF p.list = 0 \/ p.bad = 1 \/ (p.n = -3 /\ p.rn = <<>>) THEN Fail({"any"})
     ELSE Ok(Canon(IF p.rn = <<>> THEN e ELSE [e EXCEPT !.hn = 1, !.n = p.rn]))
BindOps == {"vec_rbind", "vec_cbind", "df_list", "data_frame", "new_data_frame"}
ExpBind(ev) ==
  CASE ev.op = "vec_rbind" -> RbindOk(ev, Rbind(ev.l.xs, ev.ln.xs, ev.p.cn, ev.v.ptype, ev.p.mode, IF ev.p.mode = "col" THEN ev.p.to[1] ELSE <<>>, ev.p.spec, ev.p.repair))
    [] ev.op = "vec_cbind" -> LET e == Cbind(ev.l.xs, ev.ln.xs, ev.p.cn, ev.v.ptype, ev.p.size, ev.p.repair) IN IF e.ok = 2 THEN [all |-> TRUE] ELSE e
    [] ev.op = "df_list" -> LET e == DfList(ev.l.xs, ev.ln.xs, ev.p.size, ev.p.unpack, ev.p.repair) IN
         IF e.ok # 1 THEN e ELSE [ok |-> 1, exp |-> e, pred |-> ev.ok = 1 /\ ev.outs = e.c /\ ev.on.n = e.n /\ ev.on.hn = 1]
    [] ev.op = "new_data_frame" -> NewDf(ev.l.x, ev.ln.x, ev.p)
    [] ev.op = "data_frame" -> DataFrame(ev.l.xs, ev.ln.xs, ev.p.size, ev.p.repair)
=============================================================================
