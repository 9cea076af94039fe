------------------------------- MODULE MC_Bind -------------------------------
(* A table grows: rows are stacked under it, columns are put beside it, and it is taken apart again. *)
EXTENDS MCBase
Group == IF "GROUP" \in DOMAIN IOEnv THEN IOEnv.GROUP ELSE ""
Of(g, S) == IF Group = "" \/ Group = g THEN S ELSE {}
Anon == [hn |-> 0, n |-> <<>>]
NX == Ch(120)
NY == Ch(121)
Shell(k) == BareShell(k)
Cell(k) == IF k = "int" THEN {<<1>>, <<>>} ELSE IF k = "lgl" THEN {<<1>>} ELSE IF k = "dbl" THEN {<<0, 1, 0, 0>>} ELSE {StrA}
(* data frames of up to two columns x and y (in either order) of these types, up to n rows *)
Dfs(ks, n) == {Vec(DfShell(<<>>, <<>>), Const(m, <<>>), 0, <<>>) : m \in 0..n}
  \cup UNION {{Vec(DfShell(<<c>>, <<Shell(k)>>), [j \in 1..Len(f) |-> <<f[j]>>], 0, <<>>) : f \in SeqUpTo(Cell(k), n)} : c \in {NX, NY}, k \in ks}
  \cup UNION {{Vec(DfShell(cs, <<Shell(k), Shell("int")>>), [j \in 1..m |-> <<f[j], <<7>>>>], 0, <<>>) : f \in [1..m -> Cell(k)]} : cs \in {<<NX, NY>>, <<NY, NX>>}, k \in ks, m \in 0..n}
Rn(v, ns) == [v EXCEPT !.hn = 1, !.n = ns]
Singles == {NullVec, LglVec(<<NA>>), WithNames(IntVec(<<1, 2>>), <<NX, NY>>), WithNames(IntVec(<<3>>), <<NY>>), IntVec(<<4>>), WithNames(LglVec(<<1>>), <<NX>>), WithNames(ChrVec(<<StrA>>), <<NX>>)}
Small == Dfs({"int", "lgl"}, 1)
Pieces == (IF Quick THEN Small ELSE Dfs({"int", "lgl", "chr"}, 2)) \cup Singles
Few == {Df2(<<<<8, 9>>>>), Vec(DfShell(<<NY>>, <<Shell("dbl")>>), <<<<<<0, 1, 0, 0>>>>>>, 0, <<>>), Vec(DfShell(<<NY, NX>>, <<Shell("lgl"), Shell("lgl")>>), <<<<<<1>>, <<>>>>>>, 0, <<>>), Df2(<<>>)}
RBs(xs) == Rbind(xs, Anon, Const(Len(xs), <<>>), NullVec, "zap", <<>>, "null", "unique")
CBs(xs) == Cbind(xs, Anon, Const(Len(xs), <<>>), NullVec, NA, "minimal")
VARIABLES t, old, other, how, r, steps
vars == <<t, old, other, how, r, steps>>
Init == t \in Dfs({"int", "dbl"}, 2) /\ old = t /\ other = NullVec /\ how = "" /\ r = [ok |-> 9] /\ steps = 0
Res(e, dflt) == IF e.ok = 1 THEN (IF "out" \in DOMAIN e THEN e.out ELSE Vec(e.s, e.r, e.hn, e.n)) ELSE dflt
Do(h, e, w) == /\ how' = h /\ r' = e /\ old' = t /\ other' = w /\ t' = Res(e, t) /\ steps' = steps + 1
Room == steps < 2 /\ Size(t) <= 3 /\ Len(t.s.l) <= 3
Stack == Room /\ \E w \in (IF Quick /\ steps > 0 THEN Few ELSE Pieces) : Do("rbind", RBs(<<t, w>>), w)
Beside == Room /\ \E w \in (IF Quick /\ steps > 0 THEN Few ELSE Pieces) : Do("cbind", Cbind(<<t, w>>, Anon, <<<<>>, <<>>>>, NullVec, NA, "unique"), w)
Next == Stack \/ Beside
Done(h) == how = h /\ r.ok = 1
Col(v, name) == LET p == PosOf(v.s.l, name) IN IF p = 0 THEN <<>> ELSE ColVecs(v)[p].r
IsDf(v) == v.s.k = "df"
AsDf(v) == AsRow(v, <<>>, "unique").out
(* C16, rows *)
RowCount == Done("rbind") => LET w == AsDf(other) IN Size(t) = Size(old) + (IF other.s.k = "null" THEN 0 ELSE IF IsUnspec(other) /\ other.hn = 0 THEN Size(other) ELSE Size(w))
ColUnion == (Done("rbind") /\ other.s.k # "null" /\ ~(IsUnspec(other) /\ other.hn = 0)) =>
  LET w == AsDf(other) u == AsDf(old) IN t.s.l = u.s.l \o SelectSeq(w.s.l, LAMBDA c : PosOf(u.s.l, c) = 0)
RowsKept == (Done("rbind") /\ other.s.k # "null" /\ ~(IsUnspec(other) /\ other.hn = 0)) =>
  LET w == AsDf(other) u == AsDf(old) IN
  \A j \in 1..Len(t.s.l) : LET c == t.s.l[j] out == ColVecs(t)[j].r
      a == PosOf(u.s.l, c) b == PosOf(w.s.l, c)
      A == IF a = 0 THEN InitS(t.s.h[j], Size(old)).r ELSE Values(CastS(ColVecs(old)[a], t.s.h[j]).out).r
      B == IF b = 0 THEN InitS(t.s.h[j], Size(w)).r ELSE Values(CastS(ColVecs(w)[b], t.s.h[j]).out).r
  IN out = A \o B
(* stacking is associative, up to the order in which types are found, and nothing is neutral *)
SameDf(e, f) == e.ok = f.ok /\ (e.ok = 1 => e.s = f.s /\ e.r = f.r)
Associative == (how = "rbind" /\ steps = 1) => \A w \in Few :
  LET whole == RBs(<<old, other, w>>) IN
  (whole.ok = 1 /\ r.ok = 1 /\ UniqueNames(t.s.l) = t.s.l) => LET left == RBs(<<t, w>>) IN left.ok = 1 /\ left.r = whole.r /\ left.s.l = whole.s.l
NullNeutral == how = "" => SameDf(RBs(<<NullVec, t, NullVec>>), RBs(<<t>>))
SplitRows == how = "" => \A k \in 0..Size(t) :
  LET e == RBs(<<Slice(t, Iota(k)), Slice(t, [j \in 1..(Size(t) - k) |-> k + j])>>) IN e.ok = 1 /\ e.s = t.s /\ e.r = t.r
Ids == how = "" => LET e == Rbind(<<t, NullVec, t>>, Anon, Const(3, <<>>), NullVec, "col", Ch(105), "null", "unique") IN
  e.ok = 1 /\ e.s.l = <<Ch(105)>> \o t.s.l /\ Col(Vec(e.s, e.r, 0, <<>>), Ch(105)) = Const(Size(t), <<<<1>>>>) \o Const(Size(t), <<<<3>>>>)
(* C16, columns *)
Beside1 == (Done("cbind") /\ IsDf(other)) => /\ Len(t.s.l) = Len(old.s.l) + Len(other.s.l)
  /\ \A j \in 1..Len(t.s.l) : LET v == IF j <= Len(old.s.l) THEN old ELSE other q == IF j <= Len(old.s.l) THEN j ELSE j - Len(old.s.l) IN
       ColVecs(t)[j] = Recycle(ColVecs(v)[q], Size(t)).out
CbindSize == how = "cbind" => (r.ok = 1 <=> other.s.k = "null" \/ Size(other) = Size(old) \/ 1 \in {Size(other), Size(old)})
SplitCols == how = "" => \A k \in 0..Len(t.s.l) :
  LET C == ColVecs(t) part(a, b) == FromCols([t.s EXCEPT !.l = SubSeq(t.s.l, a, b)], SubSeq(C, a, b), Size(t)) IN
  CBs(<<part(1, k), part(k + 1, Len(t.s.l))>>) = Ok(t)
(* C22: a data frame is its columns *)
FromColumns == how = "" => LET C == ColVecs(t) IN
  /\ DataFrame(C, [hn |-> 1, n |-> t.s.l], Size(t), "check_unique") = Ok(t)
  /\ (C # <<>> => DataFrame(C, [hn |-> 1, n |-> t.s.l], NA, "check_unique") = Ok(t))
  /\ DataFrame(<<t>>, Anon, NA, "check_unique") = Ok(t)
Unpacking == Done("cbind") => LET e == DataFrame(<<old, other>>, [hn |-> 1, n |-> <<<<1>>, <<1>>>>], NA, "unique") IN IsDf(other) => e.ok = 1 /\ e.out = t
Packing == (how = "cbind" /\ r.ok = 1 /\ IsDf(other)) => LET e == DataFrame(<<old, other>>, [hn |-> 1, n |-> <<NX, NY>>], NA, "unique") IN e.ok = 1 /\ e.out.s.l = <<NX, NY>> /\ ColVecs(e.out)[2] = Recycle(other, Size(t)).out

(* ---- cases ---- *)
Emp(m) == Const(m, <<>>)
RP(m) == {[mode |-> "zap", to |-> <<NX>>, spec |-> "null", repair |-> "unique", cn |-> Emp(m)], [mode |-> "null", to |-> <<NX>>, spec |-> "glue", repair |-> "unique", cn |-> Emp(m)],
          [mode |-> "col", to |-> <<NX>>, spec |-> "null", repair |-> "universal_quiet", cn |-> Emp(m)], [mode |-> "col", to |-> <<Ch(105)>>, spec |-> "null", repair |-> "check_unique", cn |-> Emp(m)]}
CP(m) == [size : {NA, 1, 2}, repair : {"unique", "minimal"}, cn : {Emp(m)}]
Els == {NullVec, LglVec(<<NA>>), WithNames(IntVec(<<1, 2>>), <<NX, NY>>), IntVec(<<4>>), WithNames(ChrVec(<<StrA>>), <<NX>>), Rn(Df2(<<<<8, 9>>>>), <<StrA>>), Df2(<<<<1, NA>>, <<2, 3>>>>), Df2(<<>>), Rn(Vec(DfShell(<<NY>>, <<Shell("dbl")>>), <<<<<<0, 1, 0, 0>>>>>>, 0, <<>>), <<StrA>>), Vec(DfShell(<<>>, <<>>), Const(2, <<>>), 0, <<>>)}
NP == [ptype |-> NullVec]
Outers(m) == {Anon, [hn |-> 1, n |-> [k \in 1..m |-> IF k = 2 THEN <<1>> ELSE StrA]]}
LG(vs, xs, outer, ops) == [vs |-> SetToSeq(vs), l |-> [xs |-> xs], ln |-> [xs |-> outer], ops |-> SetToSeq(ops)]
Lists == SeqUpTo(Els, IF Quick THEN 2 ELSE 3)
Cases == Of("C16", {LG({NP, [ptype |-> Df2(<<>>)]}, q, o, OpP({"vec_rbind"}, RP(Len(q))) \cup OpP({"vec_cbind"}, CP(Len(q)))) : q \in Lists, o \in Outers(3)})
  \cup Of("C22", {LG({<<>>}, q, o, OpP({"df_list"}, [size : {NA, 1, 2}, unpack : {0, 1}, repair : {"unique", "minimal"}]) \cup OpP({"data_frame"}, [size : {NA, 0, 2}, repair : {"unique", "check_unique", "universal_quiet"}])) : q \in Lists, o \in Outers(3)})
Fit(c) == c.ln.xs.hn = 0 \/ c.l.xs # <<>>
ASSUME Write(SetToSeq({IF c.ln.xs.hn = 1 THEN [c EXCEPT !.ln.xs.n = SubSeq(@, 1, Len(c.l.xs))] ELSE c : c \in {z \in Cases : Fit(z)}}))
=============================================================================
