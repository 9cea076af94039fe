-------------------------------- MODULE Join --------------------------------
(* C14: locating matches. The columns of the two (cast) vectors are reduced to integers that preserve
   their joint order; a join is then a set of (needle, haystack) locations and a list of options. *)
EXTENDS Combine

(* per column: its leaves *)
ColLeaves(s) ==
  IF s.k # "df" THEN <<Iota(NKeyLeaves(s))>>
  ELSE LET w == [j \in 1..Len(s.h) |-> Len(KeyLeaves(s.h[j]))] IN
       [j \in 1..Len(s.h) |-> [i \in 1..w[j] |-> SumSeq(SubSeq(w, 1, j - 1)) + i]]
Sub(row, J) == [i \in 1..Len(J) |-> row[J[i]]]
(* c = [nc, n, h: per row, per column: [k: ordering key, miss: 1 no missing part, 2 some, 3 all]] *)
JoinCols(x, y, nd, collate) ==
  LET both == Vec(x.s, x.r \o y.r, 0, <<>>)
      KL == TLCEval(KeyLeaves(x.s)) OL == TLCEval(OLeaf(x.s)) cl == TLCEval(ColLeaves(x.s))
      ks == TLCEval(Keys(both)) ok == TLCEval(OKeys(both, collate))
      kleaf(j) == IF ListArray(x.s) THEN Iota(Len(KL)) ELSE cl[j]
      comp(q, j) == \A i \in Range1(kleaf(j)) : ~IsMiss(KL[i], ks[q][i])
      part(q, j) == \E i \in Range1(kleaf(j)) : (~IsMiss(KL[i], ks[q][i]) \/ (KL[i] = "cpl" /\ (ks[q][i][1] = 1 \/ ks[q][i][6] = 1)))
      cmp(j, a, b) == RowOCmp(Sub(OL, cl[j]), Sub(ok[a], cl[j]), Sub(ok[b], cl[j]), Const(Len(cl[j]), 0), Const(Len(cl[j]), 0), nd)
      n == Len(both.r)
      rank(j) == LET o == TLCEval(SortLocs(n, LAMBDA a, b : cmp(j, a, b)))
                     st == TLCEval(FoldLeft(LAMBDA acc, k : Append(acc, IF k = 1 THEN 1 ELSE IF cmp(j, o[k-1], o[k]) = 0 THEN acc[k-1] ELSE acc[k-1] + 1), <<>>, Iota(n)))
                 IN [q \in 1..n |-> st[SelectInSeq(o, LAMBDA e : e = q)]]
      rs == TLCEval([j \in 1..Len(cl) |-> TLCEval(rank(j))])
      cs == TLCEval([j \in 1..Len(cl) |-> [q \in 1..n |-> comp(q, j)]])
  IN [nc |-> Len(cl), nx |-> Len(x.r), ny |-> Len(y.r), r |-> rs, c |-> cs,
      mixed |-> [j \in 1..Len(cl) |-> \E q \in 1..n : ~comp(q, j) /\ part(q, j)]]

OpHolds(op, c) == CASE op = "==" -> c = 0 [] op = ">" -> c > 0 [] op = ">=" -> c >= 0 [] op = "<" -> c < 0 [] op = "<=" -> c <= 0
(* does needle i match row j of the haystack in column c *)
ColMatch(J, c, op, i, j, inc) ==
  LET a == J.r[c][i] b == J.r[c][J.nx + j] IN
  IF J.c[c][i] THEN J.c[c][J.nx + j] /\ OpHolds(op, a - b)
  ELSE a = b /\ (inc = "match" \/ op \in {"==", ">=", "<="})
(* ascending: the haystack locations that satisfy every column *)
Matches(J, ops, i, inc) == Which(J.ny, LAMBDA j : \A c \in 1..J.nc : ColMatch(J, c, ops[c], i, j, inc))
(* better in the first filtered column in which the two rows differ *)
Better(J, filt, a, b) ==
  LET c == SelectInSeq(Iota(J.nc), LAMBDA q : filt[q] # "none" /\ J.r[q][J.nx + a] # J.r[q][J.nx + b]) IN
  IF c = 0 THEN FALSE
  ELSE IF filt[c] = "min" THEN J.r[c][J.nx + a] < J.r[c][J.nx + b] ELSE J.r[c][J.nx + a] > J.r[c][J.nx + b]
Filtered(J, filt, M) ==
  IF \A c \in 1..J.nc : filt[c] = "none" THEN M
  ELSE SelectSeq(M, LAMBDA a : \A k \in 1..Len(M) : ~Better(J, filt, M[k], a))
Incomplete(J, i) == \E c \in 1..J.nc : ~J.c[c][i]
Reduce(M, multiple) ==
  IF M = <<>> THEN M ELSE CASE multiple = "first" -> <<M[1]>> [] multiple = "last" -> <<M[Len(M)]>> [] OTHER -> M

PerCol(arg, nc) == IF Len(arg) = 1 THEN Const(nc, arg[1]) ELSE IF Len(arg) = nc THEN arg ELSE <<>>
Cond == {"==", ">", ">=", "<", "<="}
Filt == {"none", "min", "max"}
BadJoinArgs(J, p) ==
  \/ J.nc = 0
  \/ PerCol(p.cond, J.nc) = <<>> \/ PerCol(p.filt, J.nc) = <<>>
  \/ \E k \in 1..Len(p.cond) : p.cond[k] \notin Cond
  \/ \E k \in 1..Len(p.filt) : p.filt[k] \notin Filt
  \/ p.inc \notin {"compare", "match", "drop", "error", "value"}
  \/ p.nomatch \notin {"drop", "error", "value"} \/ p.remaining \notin {"drop", "error", "value"}
  \/ p.multiple \notin {"all", "any", "first", "last", "warning", "error"}
  \/ p.rel \notin {"none", "one-to-one", "one-to-many", "many-to-one", "many-to-many", "warn-many-to-many"}

(* the whole operation on reduced columns: [rows: sequence of <<needle, haystack, kind>>, errs: violated constraints with their locations, warn] *)
JoinResult(J, p) ==
  LET ops == TLCEval(PerCol(p.cond, J.nc)) filt == TLCEval(PerCol(p.filt, J.nc))
      skip == p.inc \in {"drop", "error", "value"}
      inc == TLCEval([i \in 1..J.nx |-> skip /\ Incomplete(J, i)])
      F == TLCEval([i \in 1..J.nx |-> IF inc[i] THEN <<>> ELSE Filtered(J, filt, Matches(J, ops, i, p.inc))])
      M == TLCEval([i \in 1..J.nx |-> Reduce(F[i], p.multiple)])
      noM == {i \in 1..J.nx : ~inc[i] /\ M[i] = <<>>}
      hit(j) == {i \in 1..J.nx : \E k \in 1..Len(M[i]) : M[i][k] = j}
      hits == TLCEval([j \in 1..J.ny |-> Cardinality(hit(j))])
      rem == Which(J.ny, LAMBDA j : hits[j] = 0)
      manyN == {i \in 1..J.nx : Len(M[i]) > 1}
      manyH == {j \in 1..J.ny : hits[j] > 1}
      e(cls, S) == IF S = {} THEN {} ELSE {[cls |-> cls, i |-> S]}
      errs == (IF p.inc = "error" THEN e("vctrs_error_matches_incomplete", {i \in 1..J.nx : inc[i]}) ELSE {})
        \cup (IF p.nomatch = "error" THEN e("vctrs_error_matches_nothing", noM) ELSE {})
        \cup (IF p.remaining = "error" THEN e("vctrs_error_matches_remaining", Range1(rem)) ELSE {})
        \cup (IF p.multiple = "error" THEN e("vctrs_error_matches_multiple", manyN) ELSE {})
        \cup (IF p.rel = "one-to-one" THEN e("vctrs_error_matches_relationship_one_to_one", manyN \cup manyH) ELSE {})
        \cup (IF p.rel = "one-to-many" THEN e("vctrs_error_matches_relationship_one_to_many", manyH) ELSE {})
        \cup (IF p.rel = "many-to-one" THEN e("vctrs_error_matches_relationship_many_to_one", manyN) ELSE {})
      row(i) == IF inc[i] THEN (IF p.inc = "value" THEN <<<<i, p.incv>>>> ELSE <<>>)
                ELSE IF M[i] = <<>> THEN (IF p.nomatch = "value" THEN <<<<i, p.nomatchv>>>> ELSE <<>>)
                ELSE [k \in 1..Len(M[i]) |-> <<i, M[i][k]>>]
  IN [M |-> M, F |-> F, inc |-> inc, rem |-> rem, errs |-> errs,
      rows |-> Concat([i \in 1..J.nx |-> row(i)]) \o (IF p.remaining = "value" THEN [k \in 1..Len(rem) |-> <<p.remainingv, rem[k]>>] ELSE <<>>),
      warn |-> (IF p.rel = "warn-many-to-many" /\ manyN # {} /\ manyH # {} THEN {"vctrs_warning_matches_relationship_many_to_many"} ELSE {})
        \cup (IF p.multiple = "warning" /\ manyN # {} THEN {"vctrs_warning_matches_multiple"} ELSE {})]

(* with multiple = "any" the chosen match is free: fix the choices the result made *)
AnyChoice(J, p, rows) ==
  LET ops == TLCEval(PerCol(p.cond, J.nc)) filt == TLCEval(PerCol(p.filt, J.nc))
      skip == p.inc \in {"drop", "error", "value"}
      ok(i, j) == j # NA /\ j \in 1..J.ny /\ \E k \in 1..1 : j \in Range1(Filtered(J, filt, Matches(J, ops, i, p.inc)))
  IN [i \in 1..J.nx |-> IF skip /\ Incomplete(J, i) THEN 0
       ELSE LET m == Matches(J, ops, i, p.inc) IN
            IF m = <<>> THEN 0
            ELSE LET q == SelectInSeq(rows, LAMBDA e : e[1] = i /\ ok(i, e[2])) IN IF q = 0 THEN -1 ELSE rows[q][2]]
AnyOk(J, p, rows, err, warn) ==
  (* the constraints are evaluated on the choices; a relationship can only concern the haystack *)
  LET skip == p.inc \in {"drop", "error", "value"} IN
  IF rows = <<>> /\ err # {} THEN TRUE
  ELSE LET ch == TLCEval(AnyChoice(J, p, rows))
           rem == Which(J.ny, LAMBDA j : \A i \in 1..J.nx : ch[i] # j)
           row(i) == IF skip /\ Incomplete(J, i) THEN (IF p.inc = "value" THEN <<<<i, p.incv>>>> ELSE <<>>)
                     ELSE IF ch[i] = 0 THEN (IF p.nomatch = "value" THEN <<<<i, p.nomatchv>>>> ELSE <<>>) ELSE <<<<i, ch[i]>>>>
       IN /\ \A i \in 1..J.nx : ch[i] # -1
          /\ rows = Concat([i \in 1..J.nx |-> row(i)]) \o (IF p.remaining = "value" THEN [k \in 1..Len(rem) |-> <<p.remainingv, rem[k]>>] ELSE <<>>)
          /\ (p.inc = "error" => \A i \in 1..J.nx : ~Incomplete(J, i))
          /\ (p.nomatch = "error" => \A i \in 1..J.nx : (skip /\ Incomplete(J, i)) \/ ch[i] # 0)
          /\ (p.remaining = "error" => rem = <<>>)
          /\ (p.rel \in {"one-to-one", "one-to-many"} => \A i \in 1..J.nx, k \in 1..J.nx : i # k => ch[i] = 0 \/ ch[i] # ch[k])
          /\ warn = {}

JoinOps == {"vec_locate_matches"}
ExpJoin(ev) ==
  LET p == ev.p bs == Both(ev.v.x, ev.v.y, NullVec, TRUE) IN
  IF "null" \in {ev.v.x.s.k, ev.v.y.s.k} THEN Fail({"any"})
  ELSE IF bs.ok = 2 THEN [all |-> TRUE] ELSE IF bs.ok # 1 THEN Fail(bs.err \cup (IF ev.ok = 0 THEN {"any"} ELSE {}))
  ELSE LET J == TLCEval(JoinCols(bs.x, bs.y, p.nd, p.collate = 1)) IN
  IF BadJoinArgs(J, p) THEN Fail({"any"})
  ELSE IF \E c \in 1..J.nc : J.mixed[c] /\ PerCol(p.cond, J.nc)[c] # "==" THEN [all |-> TRUE] \* partly missing rows have no documented order
  ELSE LET R == TLCEval(JoinResult(J, p))
           rows == IF ev.ok = 1 THEN [k \in 1..Len(ev.out.n) |-> <<ev.out.n[k], ev.out.h[k]>>] ELSE <<>>
           warn == IF ev.ok = 1 THEN Range1(ev.out.w) ELSE {}
           shape == ev.ok = 1 /\ Len(ev.out.n) = Len(ev.out.h) /\ ev.out.nm = "needles/haystack" /\ ev.out.c = "data.frame"
           errOk == \E q \in R.errs : q.cls \in Range1(ev.err) /\ (ev.i = <<>> \/ ev.i[1] \in q.i)
       IN
       IF p.multiple # "any"
       THEN [all |-> /\ ev.mut = 0
                     /\ IF R.errs # {} THEN ev.ok = 0 /\ errOk
                        ELSE shape /\ rows = R.rows /\ warn = R.warn,
             exp |-> <<R.errs, R.rows, R.warn>>]
       ELSE LET (* whatever is chosen, these constraints are decided *)
                sure == {q \in R.errs : q.cls \in {"vctrs_error_matches_incomplete", "vctrs_error_matches_nothing"}}
                may == {"vctrs_error_matches_remaining", "vctrs_error_matches_relationship_one_to_one", "vctrs_error_matches_relationship_one_to_many"} IN
            [all |-> /\ ev.mut = 0
                     /\ IF sure # {} THEN ev.ok = 0 /\ (Range1(ev.err) \cap ({q.cls : q \in sure} \cup may) # {})
                        ELSE IF ev.ok = 0 THEN
                             \/ p.remaining = "error" /\ J.ny > 0 /\ "vctrs_error_matches_remaining" \in Range1(ev.err) /\ (\E j \in 1..J.ny : \A i \in 1..J.nx : R.F[i] # <<j>>)
                             \/ p.rel = "one-to-one" /\ "vctrs_error_matches_relationship_one_to_one" \in Range1(ev.err) /\ (\E i, k \in 1..J.nx : i # k /\ Range1(R.F[i]) \cap Range1(R.F[k]) # {})
                             \/ p.rel = "one-to-many" /\ "vctrs_error_matches_relationship_one_to_many" \in Range1(ev.err) /\ (\E i, k \in 1..J.nx : i # k /\ Range1(R.F[i]) \cap Range1(R.F[k]) # {})
                        ELSE shape /\ AnyOk(J, p, rows, {}, warn),
             exp |-> <<R.errs, R.F>>]
=============================================================================
