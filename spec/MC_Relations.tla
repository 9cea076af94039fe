----------------------------- MODULE MC_Relations -----------------------------
(* Every operation on row equality over all pairs of small vectors: the laws as invariants, every case replayed on the code. *)
EXTENDS MCBase
D(x) == IntToDbl(x)
N == IF Quick THEN 4 ELSE 5
Elems == {1, 2, NA}
IntX == IntVecs(Elems, N)
DblX == DblVecs({D(1), <<>>, <<0>>, <<0, 0, 0, 0>>, <<0, 0, 0, 0, 1>>}, 2)
ChrX == ChrVecs({StrA, <<>>, <<1>>}, 2)
DfX == Df2s({1, NA}, 2)
Xs == IntX \cup DblX \cup ChrX \cup DfX
Ys == IntVecs(Elems, 2) \cup DblX \cup ChrX \cup DfX
VARIABLES x, y, t
(* one vector first (t = 0), then a second one *)
Init == x \in Xs /\ y = NullVec /\ t = 0
Next == t = 0 /\ t' = 1 /\ x' = x /\ y' \in {w \in Ys : w.s = x.s \/ Len(w.r) <= 1}
Ev(op, p) == [op |-> op, v |-> [x |-> x, y |-> y, ptype |-> NullVec], p |-> p]
Same == x.s = y.s
KX == Keys(x)
F == FirstIx(KX)
EqNa(a, b) == VecEqual(a, b, 1, NullVec)
(* C09 *)
EqReflexive == t = 0 => LET e == EqNa(x, x) IN e.ok = 1 /\ \A k \in 1..Size(x) : e.out.r[k] = <<<<1>>>>
EqSymmetric == t = 1 => LET a == EqNa(x, y) b == EqNa(y, x) IN a.ok = b.ok /\ (a.ok = 1 => a.out = b.out)
PropSymmetric == t = 1 => LET a == VecEqual(x, y, 0, NullVec) b == VecEqual(y, x, 0, NullVec) IN a.ok = b.ok /\ (a.ok = 1 => a.out = b.out)
PropAgrees == t = 1 => (* without missing values the two rules agree *)
  LET a == EqNa(x, y) b == VecEqual(x, y, 0, NullVec) IN
  a.ok = 1 => \A k \in 1..Size(a.out) : b.out.r[k] # <<<<>>>> => b.out.r[k] = a.out.r[k]
MissingIncomplete == t = 0 => \A k \in 1..Size(x) : (Missings(x)[k] => ~Completes(x)[k]) /\ (x.s.k # "df" => Missings(x)[k] # Completes(x)[k])
(* C08 *)
RecycleLaw == t = 1 => LET c == SizeCommon(<<x, y>>) IN
  /\ c.ok = SizeCommon(<<y, x>>).ok
  /\ c.ok = 1 => c = SizeCommon(<<y, x>>) /\ Recycle(x, c.n).ok = 1 /\ Recycle(y, c.n).ok = 1 /\ Size(Recycle(x, c.n).out) = c.n
  /\ c.ok = 0 <=> (Size(x) # Size(y) /\ Size(x) # 1 /\ Size(y) # 1)
(* C11 *)
UniqueLaw == t = 0 => LET U == UniqLocs(F) IN
  /\ \A i \in 1..Len(U), j \in 1..Len(U) : i < j => U[i] < U[j] /\ KX[U[i]] # KX[U[j]]
  /\ \A k \in 1..Size(x) : \E j \in 1..Len(U) : KX[U[j]] = KX[k] /\ U[j] <= k
  /\ Len(UniqLocs(FirstIx(Keys(Slice(x, U))))) = Len(U)
DupLaw == t = 0 => \A k \in 1..Size(x) : F[k] <= k /\ F[F[k]] = F[k] /\ (F[k] \in DupFirsts(F) <=> \E j \in 1..Size(x) : j # k /\ KX[j] = KX[k])
(* C12 *)
MatchLaw == LET m == VecMatch(x, y, 1) IN t = 1 /\ m.ok = 1 /\ Same => \A k \in 1..Size(x) :
   IF m.i[k] = 0 THEN \A j \in 1..Size(y) : Keys(y)[j] # KX[k]
   ELSE Keys(y)[m.i[k]] = KX[k] /\ \A j \in 1..(m.i[k]-1) : Keys(y)[j] # KX[k]
SetLaw == t = 1 /\ Same => LET a == Range1(KX) b == Range1(Keys(y))
     rows(op) == LET l == SetLocs(op, KX, Keys(y)) IN [k \in 1..Len(l[1]) |-> KX[l[1][k]]] \o [k \in 1..Len(l[2]) |-> Keys(y)[l[2][k]]]
     ok(op, S) == Range1(rows(op)) = S /\ Len(rows(op)) = Cardinality(S) IN
  ok("vec_set_intersect", a \cap b) /\ ok("vec_set_union", a \cup b) /\ ok("vec_set_difference", a \ b) /\ ok("vec_set_symmetric_difference", (a \ b) \cup (b \ a))
(* C13 *)
GroupLaw == t = 0 => LET G == GroupLocs(F) IN
  /\ SumSeq([g \in 1..Len(G) |-> Len(G[g])]) = Size(x) /\ UNION {Range1(G[g]) : g \in 1..Len(G)} = 1..Size(x)
  /\ \A g \in 1..Len(G) : \A i \in 1..Len(G[g]) : KX[G[g][i]] = KX[G[g][1]] /\ GroupIds(F)[G[g][i]] = g /\ (i > 1 => G[g][i-1] < G[g][i])
RunLaw == t = 0 => LET S == Starts(KX) E == Ends(KX) Z == RunSizes(KX) R == RunIds(KX) IN
  /\ Len(S) = Len(E) /\ Len(Z) = Len(S) /\ SumSeq(Z) = Size(x) /\ R.n = Len(S)
  /\ \A j \in 1..Len(S) : S[j] <= E[j] /\ Z[j] = E[j] - S[j] + 1 /\ (j > 1 => S[j] = E[j-1] + 1 /\ KX[S[j]] # KX[S[j-1]]) /\ \A k \in S[j]..E[j] : KX[k] = KX[S[j]] /\ R.i[k] = j
UnrepRep == t = 0 => LET S == Starts(KX) IN Keys(Slice(Slice(x, S), EachLocs(RunSizes(KX)))) = KX
(* C18 *)
RepLaw == t = 0 => \A m \in 0..2 : LET r == VecRep(x, IntVec(<<m>>)) e == VecRepEach(x, IntVec(<<m>>)) IN
  r.ok = 1 /\ e.ok = 1 /\ Size(r.out) = m * Size(x) /\ Size(e.out) = m * Size(x)
  /\ \A k \in 1..Size(r.out) : r.out.r[k] = x.r[((k-1) % Size(x)) + 1] /\ e.out.r[k] = x.r[((k-1) \div m) + 1]
Dirs == {"down", "up", "downup", "updown"}
FillLaw == t = 0 => \A d \in Dirs, m \in {NA, 1} : LET L == FillLocs(Missings(x), d, m) G == VecFill(x, d, m).out IN
  \A k \in 1..Size(x) : (~Missings(x)[k] => L[k] = k) /\ (L[k] # k => Missings(x)[k] /\ ~Missings(x)[L[k]] /\ \A j \in (MinI(k, L[k])+1)..(MaxI(k, L[k])-1) : Missings(x)[j])
     /\ ((m = NA /\ d \in {"downup", "updown"} /\ \E j \in 1..Size(x) : ~Missings(x)[j]) => ~Missings(G)[k])
GridLaw == t = 1 => \A v \in {"slowest", "fastest"} :
  LET nx == Size(x) ny == Size(y) a == GridLocs(<<nx, ny>>, v, 1) b == GridLocs(<<nx, ny>>, v, 2) IN
  Len(a) = nx * ny /\ {<<a[k], b[k]>> : k \in 1..Len(a)} = (1..nx) \X (1..ny)
V1 == {[x |-> w] : w \in Xs}
C(ops, p) == {CaseG(V1, OpP(ops, p))}
Pairs == {q \in Xs \X Ys : q[1].s = q[2].s /\ Len(q[1].r) <= 3 /\ Len(q[2].r) <= (IF Quick THEN 2 ELSE 3)}
V2 == {[x |-> q[1], y |-> q[2], ptype |-> NullVec] : q \in Pairs}
C2(ops, p) == {CaseG(V2, OpP(ops, p))}
NoP == {<<>>}
Ops1 == {"vec_detect_missing", "vec_detect_complete", "vec_any_missing", "vec_locate_complete", "vec_slice_complete", "vec_unique_loc", "vec_unique", "vec_unique_count",
  "vec_duplicate_any", "vec_duplicate_detect", "vec_duplicate_id", "vec_group_id", "vec_group_loc", "vec_group_rle", "vec_identify_runs", "vec_run_sizes", "vec_unrep"}
Ops2 == {"vec_set_intersect", "vec_set_difference", "vec_set_union", "vec_set_symmetric_difference"}
Group == IF "GROUP" \in DOMAIN IOEnv THEN IOEnv.GROUP ELSE ""
Of(g, S) == IF Group = "" \/ Group = g THEN S ELSE {}
Cases ==
  Of("C09", C({"vec_detect_missing", "vec_detect_complete", "vec_any_missing", "vec_locate_complete", "vec_slice_complete"}, NoP) \cup C2({"vec_equal"}, [na_equal : {0, 1}]))
  \cup Of("C11", C({"vec_unique_loc", "vec_unique", "vec_unique_count", "vec_duplicate_any", "vec_duplicate_detect", "vec_duplicate_id"}, NoP))
  \cup Of("C12", C2(Ops2, NoP) \cup C2({"vec_match", "vec_in"}, [na_equal : {0, 1}]))
  \cup Of("C13", C({"vec_group_id", "vec_group_loc", "vec_group_rle", "vec_identify_runs", "vec_run_sizes", "vec_unrep"}, NoP)
     \cup C({"vec_locate_run_bounds", "vec_detect_run_bounds"}, [which : {"start", "end"}]))
  \cup Of("C18", C({"vec_fill_missing"}, [dir : Dirs, max : {NA, 1, 2}])
     \cup {CaseG([x : Xs, times : {IntVec(<<m>>) : m \in 0..2} \cup IntVecs({0, 1, 2}, 2)], OpP({"vec_rep", "vec_rep_each"}, NoP))})
  \cup Of("C08", C({"vec_recycle"}, [n : 0..4])
     \cup {[vs |-> <<<<>>>>, l |-> [xs |-> q], ln |-> [xs |-> [hn |-> 0, n |-> <<>>]], ops |-> SetToSeq(OpP({"vec_recycle_common"}, [size : {NA, 0, 1, 2}]))] :
            q \in SeqUpTo({NullVec, IntVec(<<>>), IntVec(<<1>>), IntVec(<<1, 2>>), IntVec(<<1, 2, 3>>), Df2(<<<<1, 2>>>>)}, 3)})
ASSUME Write(SetToSeq(Cases))
=============================================================================
