------------------------------- MODULE MC_Types -------------------------------
(* The type lattice and the casts over a small universe of typed vectors: laws as invariants, all pairs replayed. *)
EXTENDS MCBase
B(t) == BareShell(t)
D(x) == IntToDbl(x)
LA == Ch(97)  LB == Ch(98)  LC == Ch(99)
V1(s, es) == Vec(s, [k \in 1..Len(es) |-> <<es[k]>>], 0, <<>>)
Base == {
  NullVec, V1(B("lgl"), <<<<>>, <<>>>>), V1(B("lgl"), <<<<1>>, <<>>>>), V1(B("lgl"), <<>>),
  V1(B("int"), <<<<1>>, <<0>>, <<>>>>), V1(B("int"), <<<<2147483647>>>>), V1(B("int"), <<>>),
  V1(B("dbl"), <<D(1), <<>>, <<0>>>>), V1(B("dbl"), <<D(1), <<0, 1, 536870912, 0>>, D(5)>>), V1(B("dbl"), <<D(0), <<512, 0, 0, 0>>>>),
  V1(B("chr"), <<LA, <<>>, LB>>), V1(B("chr"), <<LC>>), V1(B("raw"), <<<<1>>>>),
  V1(FctShell1(<<LA, LB>>), <<<<1>>, <<>>, <<2>>>>), V1(FctShell1(<<LB, LA>>), <<<<1>>>>), V1(FctShell1(<<LC>>), <<<<1>>>>), V1(FctShell1(<<>>), <<<<>>>>),
  V1(OrdShell(<<LA, LB>>), <<<<1>>, <<>>>>), V1(OrdShell(<<LB, LA>>), <<<<1>>>>),
  V1(DateShell, <<D(1), <<>>>>), V1(DttmShell("UTC"), <<D(86400), <<>>>>), V1(DttmShell("UTC"), <<D(3600)>>), V1(DttmShell("Etc/GMT+5"), <<D(18000)>>), V1(DttmShell(""), <<D(0)>>),
  V1(DurShell("secs"), <<D(60)>>), V1(DurShell("secs"), <<D(1), <<>>>>),
  V1(B("list"), <<<<>>, <<14, 1, 1, 1, 0>>>>) }
Cols == {x \in Base : x.s.k \in {"lgl", "int", "dbl", "chr", "fct", "date"} /\ Len(x.r) \in {2, 3}}
Df1(nm, x) == Vec(DfShell(<<nm>>, <<x.s>>), x.r, 0, <<>>)
Df2x(x, y) == Vec(DfShell(<<LA, LB>>, <<x.s, y.s>>), [k \in 1..2 |-> x.r[k] \o y.r[k]], 0, <<>>)
Dfs == {Df1(nm, x) : nm \in {LA, LB}, x \in Cols}
       \cup {Df2x(x, y) : x \in {w \in Cols : w.s.k \in {"int", "lgl"}}, y \in {w \in Cols : w.s.k \in {"chr", "fct"}}}
Univ == Base \cup Dfs
VARIABLES x, y, z, t
Thirds == IF Quick THEN {w \in Base : Len(w.r) # 2} ELSE Base
(* two vectors, then a third *)
Init == x \in Univ /\ y = NullVec /\ z = NullVec /\ t = 0
Next == \/ t = 0 /\ t' = 1 /\ x' = x /\ y' \in Univ /\ z' = z
        \/ t = 1 /\ t' = 2 /\ x' = x /\ y' = y /\ x.s.k # "df" /\ y.s.k # "df" /\ z' \in Thirds \ {NullVec}
P(a, b) == Ptype2(a, b)
T(v) == Vec(v, <<>>, 0, <<>>)
(* the kind of a type: what may not depend on the order of the inputs *)
RECURSIVE Kind(_)
Kind(s) == CASE s.k = "df" -> <<"df", s.c, {<<s.l[j], Kind(s.h[j])>> : j \in 1..Len(s.h)}>>
             [] s.k \in {"fct"} -> <<"fct", Range1(s.l)>>
             [] s.k \in {"lof"} -> <<"lof", Kind(s.h[1])>>
             [] OTHER -> <<s.k, s.c, s.nd, s.d, s.l>>
Nullv(v) == v.s.k = "null"
Tz(s) == s.k = "dttm" (* date-times keep the first time zone *)
(* ---- C06 ---- *)
Identity == Nullv(x) => P(x, y) = OkS(PtypeS(y)) /\ P(y, x) = OkS(PtypeS(y))
UnspecIdentity == (IsUnspec(x) /\ ~Nullv(y)) => P(x, y) = OkS(PtypeS(y)) /\ P(y, x) = OkS(PtypeS(y))
Idempotent == P(x, x) = OkS(PtypeS(x))
Symmetric == LET a == P(x, y) b == P(y, x) IN a.ok = b.ok /\ (a.ok = 1 => Kind(a.s) = Kind(b.s))
Join(a, s) == Ptype2S(s, PtypeS(a))
FctOrd(a, b) == {a.s.k, b.s.k} = {"fct", "ord"}
Assoc == LET a == P(x, y) b == P(y, z) c == P(x, z) IN
         (a.ok = 1 /\ b.ok = 1) =>
            LET l == Ptype2S(a.s, PtypeS(z)) r == Ptype2S(PtypeS(x), b.s) IN
            (* the documented exception: factor and ordered have no common type but character is above both *)
            (FctOrd(x, z) \/ FctOrd(x, y) \/ FctOrd(y, z)) \/ (l.ok = r.ok /\ (l.ok = 1 => Kind(l.s) = Kind(r.s)))
Absorb == LET a == P(x, y) IN a.ok = 1 => LET b == Ptype2S(a.s, PtypeS(x)) IN b.ok = 1 /\ Kind(b.s) = Kind(a.s)
(* ---- C07 ---- *)
CastsToJoin == LET a == P(x, y) IN (a.ok = 1 /\ ~Nullv(x)) =>
   LET c == CastS(x, FinaliseS(a.s)) IN c.ok \in {1, 2, 4} /\ (c.ok = 1 => TypeShell(c.out.s) = FinaliseS(a.s) /\ Len(c.out.r) = Len(x.r))
SelfCast == (~Nullv(x)) => LET c == CastS(x, FinaliseS(PtypeS(x))) IN c.ok = 1 /\ Values(c.out).r = Values(x).r
ThereAndBack == LET a == P(x, y) IN (a.ok = 1 /\ ~Nullv(x) /\ ~IsUnspec(x)) =>
   LET c == CastS(x, FinaliseS(a.s)) IN c.ok = 1 =>
     LET b == CastS(c.out, FinaliseS(PtypeS(x))) IN
       IF x.s.k = "df" THEN b.ok = 1 => MissNorm(Values(b.out)) = MissNorm(Values(x))
       ELSE b.ok \in {1, 2, 4} /\ (b.ok = 1 => MissNorm(Values(b.out)) = MissNorm(Values(x)))
MissStay == LET c == Cast(x, y) KL == KeyLeaves(x.s) IN
   (c.ok = 1 /\ x.s.k # "df" /\ y.s.k \notin {"null", "raw", "df"} /\ ~Nullv(x)) =>
     \A k \in 1..Len(x.r) : IsMiss(KeyLeaves(x.s)[1], x.r[k][1]) <=> IsMiss(KeyLeaves(c.out.s)[1], c.out.r[k][1])
LossyIsNamed == LET c == Cast(x, y) IN (c.ok = 0 /\ "lossy" \in DOMAIN c) => Len(c.lossy) > 0 /\ \A k \in 1..Len(c.lossy) : c.lossy[k] \in 1..Len(x.r)
Small == {x0 \in Univ : ~(x0.s.k = "df" /\ Quick /\ Len(x0.s.h) = 1 /\ x0.s.l[1] = LB)}
Cases == {CaseG([x : {w}, y : Small], OpP({"vec_ptype2"}, {<<>>})) : w \in Small} \cup {CaseG([x : {w}, to : Small], OpP({"vec_cast"}, {<<>>})) : w \in Small}
ASSUME Write(SetToSeq(Cases))
=============================================================================
