-------------------------------- MODULE MC_Order --------------------------------
(* The ordering of small vectors under every combination of options: laws as invariants, every case replayed on the code. *)
EXTENDS MCBase
D(x) == IntToDbl(x)
N == IF Quick THEN 4 ELSE 5
Dbls == {D(1), D(-1), <<>>, <<0>>, <<0, 0, 0, 0, 1>>}
IntX == IntVecs({1, 2, NA}, N)
DblX == DblVecs(Dbls, IF Quick THEN 2 ELSE 3)
ChrX == ChrVecs({StrA, <<1, 97, 98>>, <<1, 66>>, <<>>, <<1>>}, 2)
DfX == Df2s({1, 2, NA}, IF Quick THEN 2 ELSE 3)
Xs == IntX \cup DblX \cup ChrX \cup DfX
B01 == {0, 1}
Args1 == {<<0>>, <<1>>}
Args2 == Args1 \cup {<<0, 1>>, <<1, 0>>}
VARIABLES x, dec, nal, nd, M
vars == <<x, dec, nal, nd, M>>
(* the comparisons of all pairs of rows under the options *)
Matrix(v, d, l, q) ==
  LET a == OrderArgs(v, [dec |-> d, nal |-> l]) ol == TLCEval(OLeaf(v.s)) kk == TLCEval(OKeys(v, FALSE)) IN
  [i \in 1..Size(v) |-> [j \in 1..Size(v) |-> RowOCmp(ol, kk[i], kk[j], a.dec, a.nal, q)]]
Init == x \in Xs /\ dec = <<>> /\ nal = <<>> /\ nd = 0 /\ M = <<>>
(* choosing the options *)
Next == /\ dec = <<>> /\ x' = x
        /\ dec' \in (IF x.s.k = "df" THEN Args2 ELSE Args1) /\ nal' \in (IF x.s.k = "df" THEN Args2 ELSE Args1)
        /\ nd' \in (IF x.s.k = "dbl" THEN B01 ELSE {0})
        /\ M' = TLCEval(Matrix(x, dec', nal', nd'))
Set == dec # <<>>
n == Len(M)
C(a, b) == M[a][b]
O == SortLocs(n, C)
(* C10 *)
Preorder == /\ \A a, b \in 1..n : C(a, b) = 0 - C(b, a)
            /\ \A a, b, c \in 1..n : C(a, b) <= 0 /\ C(b, c) <= 0 => C(a, c) <= 0
TiesAreEqual == nd = 1 => \A a, b \in 1..n : C(a, b) = 0 <=> Keys(x)[a] = Keys(x)[b]
Stable == IsOrder(O, n, C)
OnlyOne == Cardinality({o \in [1..n -> 1..n] : IsOrder(o, n, C)}) = 1
FlipLaw == (* flipping every direction and every position of missing values reverses the strict part *)
  Set => LET R == Matrix(x, [j \in 1..Len(dec) |-> 1 - dec[j]], nal, nd) IN \A a, b \in 1..n : R[a][b] = 0 - C(a, b)
Idem == LET y == Slice(x, O) IN Keys(Slice(y, O)) # <<>> => SortLocs(n, LAMBDA a, b : C(O[a], O[b])) = Iota(n)
GroupsCover == LET S == GroupBounds(O, C) IN (n = 0 /\ S = <<>>) \/ (S[1] = 1 /\ \A j \in 2..Len(S) : C(O[S[j]-1], O[S[j]]) < 0)
RankLaw == LET S == GroupBounds(O, C) r(t) == Rank(O, S, t, n) IN
  /\ \A a \in 1..n : r("min")[a] = 1 + Cardinality({b \in 1..n : C(b, a) < 0}) /\ r("max")[a] = Cardinality({b \in 1..n : C(b, a) <= 0}) /\ O[r("sequential")[a]] = a
  /\ Range1(r("dense")) = 1..Len(S) /\ \A a, b \in 1..n : r("dense")[a] < r("dense")[b] <=> C(a, b) < 0
CompareAgrees == (* the comparison of rows is the ascending order with missing values smallest *)
  (dec = <<0>> /\ nal = <<0>> /\ (x.s.k = "dbl" => nd = 1)) =>
     LET r(k) == VecCompare(x, Slice(x, Const(n, k)), 1, NullVec) IN
     \A k \in 1..n : r(k).ok = 1 /\ \A j \in 1..n : x.s.k = "dbl" \/ IntOf(r(k).out.r[j][1]) = C(j, k)
Ops == {"vec_order_radix", "vec_order_info", "vec_locate_sorted_groups"}
Pn(w) == [dec : IF w.s.k = "df" THEN Args2 ELSE Args1, nal : IF w.s.k = "df" THEN Args2 ELSE Args1, nd : IF w.s.k = "dbl" THEN B01 ELSE {0}, collate : {0}]
Pr(w) == [dec : Args1, nal : Args1, nd : IF w.s.k = "dbl" THEN B01 ELSE {0}, collate : {0}, ties : {"min", "max", "sequential", "dense"}, incomplete : {"rank", "na"}]
V1(S) == {[x |-> w] : w \in S}
V2(S, T) == {[x |-> w, y |-> z, ptype |-> NullVec] : w \in S, z \in T}
Kinds == {w.s : w \in Xs}
Cases == {CaseG(V1({w \in Xs : w.s = k}), OpP(Ops, Pn([s |-> k]))) : k \in Kinds}
   \cup {CaseG(V1(S), OpP({"vec_rank"}, Pr([s |-> [k |-> "df"]]))) : S \in {IntVecs({1, NA}, 3), DfX}}
   \cup {CaseG(V2(DblVecs(Dbls, 1), DblVecs(Dbls, 1)), OpP({"vec_compare"}, [na_equal : B01])),
         CaseG(V2(ChrVecs({StrA, <<1, 66>>, <<>>}, 1), ChrX), OpP({"vec_compare"}, [na_equal : B01])),
         CaseG(V2(Df2s({1, 2, NA}, 1), Df2s({1, 2, NA}, 1)), OpP({"vec_compare"}, [na_equal : B01]))}
ASSUME Write(SetToSeq(Cases))
=============================================================================
