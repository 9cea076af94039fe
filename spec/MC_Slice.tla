------------------------------- MODULE MC_Slice -------------------------------
(* All slices of small vectors: the laws of slicing as invariants, every case replayed on the code. *)
EXTENDS MCBase
N == IF Quick THEN 3 ELSE 4
Xs == IntVecs({1, 2, NA}, N)
      \cup {WithNames(w, ns) : w \in IntVecs({1, 3}, 2), ns \in {<<>>, <<StrA>>, <<StrA, StrB>>, <<StrB, StrB>>}}
      \cup Df2s({1, NA}, 2)
Good(x) == x.hn = 0 \/ Len(x.n) = Len(x.r)
SubIs == IntVecs({0, 1, 2, 3, NA}, 2) \cup IntVecs({-1, -2, 0, -4}, 2) \cup LglVecs({0, 1, NA}, N) \cup ChrVecs({StrA, StrB, <<>>, <<1>>}, 2)
VARIABLES x, i, t
Init == x \in {v \in Xs : Good(v)} /\ i = NullVec /\ t = 0
Next == t = 0 /\ t' = 1 /\ x' = x /\ i' \in SubIs
R == VecSlice(x, i)
L == AsLoc(i, Size(x), x.hn, x.n)
(* C01 *)
SizeLaw == R.ok = 1 => Len(R.out.r) = Len(L.i) /\ R.out.s = x.s /\ R.out.hn = x.hn
RowLaw == R.ok = 1 => \A k \in 1..Len(L.i) : R.out.r[k] = (IF L.i[k] = NA THEN MissRow(x.s) ELSE x.r[L.i[k]])
FailLaw == R.ok = 0 <=> L.ok = 0
Compose == R.ok = 1 => \A k \in 1..Len(L.i) : Slice(R.out, <<k>>).r[1] = R.out.r[k]
Identity == Slice(x, Iota(Size(x))).r = x.r
(* C02 *)
Bounds == L.ok = 1 => \A k \in 1..Len(L.i) : L.i[k] = NA \/ L.i[k] \in 1..Size(x)
Complement == (L.ok = 1 /\ i.s.k = "int" /\ \E k \in 1..Size(i) : IntOf(i.r[k][1]) # NA /\ IntOf(i.r[k][1]) < 0)
              => Range1(L.i) = (1..Size(x)) \ {0 - IntOf(i.r[k][1]) : k \in 1..Size(i)} /\ \A k \in 1..(Len(L.i)-1) : L.i[k] < L.i[k+1]
Cases == {CaseG([x : {w}, i : SubIs], OpP({"vec_slice"}, {<<>>})) : w \in {v \in Xs : Good(v)}}
ASSUME Write(SetToSeq(Cases))
=============================================================================
