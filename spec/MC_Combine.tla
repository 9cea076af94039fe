------------------------------ MODULE MC_Combine ------------------------------
(* Assigning, chopping, unchopping and combining small vectors: a vector evolves by assignments while a ghost row map is kept,
   partitions are taken apart and put back, lists of vectors are combined in every grouping. *)
EXTENDS MCBase
Group == IF "GROUP" \in DOMAIN IOEnv THEN IOEnv.GROUP ELSE ""
Of(g, S) == IF Group = "" \/ Group = g THEN S ELSE {}
N == IF Quick THEN 3 ELSE 4
Nm == {<<1>>, StrA, StrB}
IntX == IntVecs({1, 2, NA}, N)
NamX == {WithNames(v, ns) : v \in IntVecs({1, 2}, 2), ns \in SeqUpTo(Nm, 2)}
DfX == Df2s({1, NA}, 2)
Xs == IntX \cup {v \in NamX : Len(v.n) = Len(v.r)} \cup DfX
Subs == IntVecs(IF Quick THEN {0, 1, 2} ELSE {0, 1, 2, NA}, 2) \cup IntVecs({-1, 4, NA}, 1) \cup LglVecs({0, 1, NA}, 2) \cup ChrVecs({StrA, StrB}, 1)
Vals == IntVecs({7, NA}, 2) \cup DblVecs({IntToDbl(5), <<0, 0, 536870912, 0>>}, 1) \cup {LglVec(<<NA>>), Df2(<<<<8, 9>>>>), NullVec, ChrVec(<<StrA>>), WithNames(IntVec(<<7>>), <<StrB>>)}
MaxSteps == IF Quick THEN 2 ELSE 3
VARIABLES x, old, i, w, r, steps, part
vars == <<x, old, i, w, r, steps, part>>
None == [ok |-> 9]
Init == x \in Xs /\ old = x /\ i = NullVec /\ w = NullVec /\ r = None /\ steps = 0 /\ part = <<>>
Assign ==
  /\ Group \in {"", "C03"} /\ part = <<>> /\ steps < MaxSteps
  /\ (steps > 0 => Size(x) <= 2 /\ x.hn = 0)
  /\ \E ii \in Subs, ww \in Vals :
       /\ (steps > 0 => Size(ii) <= 1 /\ ww.s.k = "int" /\ (Quick => Size(ww) = 1))
       /\ i' = ii /\ w' = ww /\ r' = VecAssign(x, ii, ww)
       /\ old' = x /\ x' = (IF r'.ok = 1 THEN r'.out ELSE x) /\ steps' = steps + 1 /\ part' = part
(* cut the vector: every row to one of three (possibly empty) pieces, in either order within a piece *)
Cut ==
  /\ Group # "C03" /\ steps = 0 /\ part = <<>>
  /\ \E f \in [1..Size(x) -> 1..3], d \in {0, 1} :
       part' = [k \in 1..3 |-> LET K == {j \in 1..Size(x) : f[j] = k} IN SetToSortSeq(K, LAMBDA a, b : IF d = 0 THEN a < b ELSE a > b)]
  /\ UNCHANGED <<x, old, i, w, r, steps>>
Next == Assign \/ Cut
Loc0 == AsLoc(i, Size(old), old.hn, old.n)
(* C03 *)
AssignShape == r.ok = 1 => x.s = old.s /\ Size(x) = Size(old) /\ x.hn = old.hn /\ x.n = old.n
AssignRows == r.ok = 1 =>
  LET L == Loc0 c == CastInto(w, TypeShell(old.s)) IN
  /\ L.ok = 1 /\ c.ok = 1
  /\ \A k \in 1..Size(old) :
       LET J == {j \in 1..Len(L.i) : L.i[j] = k} IN
       IF J = {} THEN x.r[k] = old.r[k]
       ELSE x.r[k] = c.out.r[IF Size(w) = 1 THEN 1 ELSE CHOOSE j \in J : \A q \in J : q <= j]
AssignFail == r.ok = 0 => x = old /\ (w.s.k = "null" \/ Loc0.ok = 0 \/ CastInto(w, TypeShell(old.s)).ok # 1 \/ Size(w) \notin {1, Len(Loc0.i)})
GetPut == (r.ok = 1 /\ Loc0.ok = 1 /\ w.hn = 0) => \* assigning a slice back changes nothing
  LET K == SelectSeq(Loc0.i, LAMBDA k : k # NA) IN VecAssign(old, IntVec(K), Unnamed(Slice(old, K))).out = old
PutPut == r.ok = 1 => VecAssign(x, i, w).out = x
(* C04 *)
Pieces == ChopBy(x, part)
NoSp(xs, is) == Unchop(xs, FALSE, <<>>, is, Vec(x.s, <<>>, 0, <<>>), "null", "minimal")
Eq(e, v) == e.ok = 1 /\ e.r = Values(v).r /\ e.hn = v.hn /\ e.n = v.n
InverseLaw == part # <<>> => Eq(NoSp(Pieces, [k \in 1..3 |-> IntVec(part[k])]), x)
PieceRows == part # <<>> => \A k \in 1..3 : Pieces[k].s = x.s /\ \A j \in 1..Len(part[k]) : Pieces[k].r[j] = x.r[part[k][j]]
LaterWins == (part # <<>> /\ Size(x) > 0 /\ part[1] # <<>>) => \* two elements at the same location: the second one
  LET one == Slice(x, <<1>>) lst == Slice(x, <<Size(x)>>) e == NoSp(<<lst, one>>, <<IntVec(<<1>>), IntVec(<<1>>)>>) IN
  e.ok = 1 /\ Len(e.r) = 2 /\ e.r[1] = Values(one).r[1] /\ e.r[2] = Values(InitS(x.s, 1)).r[1]
Contig == part # <<>> /\ Concat(part) = Iota(Size(x))
SizesAgree == Contig => LET z == ChopSizes(x, IntVec([k \in 1..3 |-> Len(part[k])])) IN z.ok = 1 /\ z.l = part
(* C05 *)
Cat(xs) == VecC(xs, FALSE, <<>>, NullVec, "null", "minimal")
ConcatLaw == (Contig /\ Size(x) > 0) => (Eq(Cat(Pieces), x) /\ Eq(Cat(<<NullVec>> \o Pieces \o <<NullVec>>), x))
OuterLaw == (Contig /\ x.s.k = "int" /\ x.hn = 0 /\ Size(x) > 0) =>
  LET e == VecC(Pieces, TRUE, <<StrA, <<1>>, StrB>>, NullVec, "glue", "minimal") IN
  /\ e.ok = 1 /\ e.hn = 1 /\ Len(e.n) = Size(x)
  /\ \A k \in 1..Len(part[1]) : e.n[k] = IF Len(part[1]) = 1 THEN StrA ELSE StrA \o Under \o DigitsOf(k)
  /\ \A k \in 1..Len(part[2]) : e.n[Len(part[1]) + k] = <<1>>
RepairLaw == (Contig /\ x.hn = 1) =>
  LET e == VecC(Pieces, FALSE, <<>>, NullVec, "null", "unique") IN
  /\ e.ok = 1 /\ Len(e.n) = Size(x) /\ UniqueNames(e.n) = e.n
  /\ \A a \in 1..Size(x) : e.n[a] # <<1>> /\ (\A b \in 1..Size(x) : e.n[a] = e.n[b] => a = b)
(* C18 *)
InterLaw == (part # <<>> /\ x.hn = 0 /\ Size(x) > 0) =>
  LET y == Slice(x, [k \in 1..Size(x) |-> Size(x) + 1 - k]) e == InterleaveVecs(<<x, NullVec, y>>, FALSE, <<>>, NullVec, "null", "minimal") IN
  e.ok = 1 /\ \A k \in 1..Size(x) : e.r[2 * k - 1] = Values(x).r[k] /\ e.r[2 * k] = Values(y).r[k]

(* ---- cases ---- *)
NoP == {<<>>}
LG(vs, xs, outer, more, ops) == [vs |-> SetToSeq(vs), l |-> [xs |-> xs] @@ more, ln |-> [xs |-> outer] @@ [k \in DOMAIN more |-> [hn |-> 0, n |-> <<>>]], ops |-> SetToSeq(ops)]
Anon == [hn |-> 0, n |-> <<>>]
Els == {NullVec, IntVec(<<>>), IntVec(<<1>>), IntVec(<<1, 2>>), WithNames(IntVec(<<3, 4>>), <<StrA, StrA>>), WithNames(IntVec(<<5>>), <<StrB>>), DblVec(<<IntToDbl(1), <<>>>>), LglVec(<<NA, NA>>), Df2(<<<<1, NA>>>>)}
Lists == SeqUpTo(Els, IF Quick THEN 2 ELSE 3)
Outers(m) == {Anon} \cup {[hn |-> 1, n |-> ns] : ns \in [1..m -> {<<1>>, StrA}]}
NP == [ptype |-> NullVec]
SpecP == [spec : {"null", "zap", "glue", "fn"}, repair : {"minimal", "unique_quiet", "check_unique"}]
Ints2 == {IntVec(q) : q \in SeqUpTo({1, 2}, 2)}
Cases ==
  Of("C03", {CaseG([x : {v}, i : Subs, value : Vals], OpP({"vec_assign"}, NoP)) : v \in Xs})
  \cup Of("C04", {[vs |-> SetToSeq({[x |-> v] : v \in {z2 \in Xs : Size(z2) <= 3}}), l |-> [indices |-> q], ln |-> [indices |-> Anon], ops |-> SetToSeq(OpP({"vec_chop_idx"}, NoP))] : q \in SeqUpTo({IntVec(<<>>), IntVec(<<1>>), IntVec(<<2, 1>>), IntVec(<<NA>>), IntVec(<<0>>), DblVec(<<IntToDbl(1)>>)}, 2)}
     \cup {CaseG([x : Xs, sizes : IntVecs({0, 1, 2, -1, NA}, 2)], OpP({"vec_chop_sizes"}, NoP))}
     \cup {LG({NP}, q, o, [indices |-> z], OpP({"list_unchop_idx"}, [spec : {"null", "glue"}, repair : {"minimal"}])) : q \in {z2 \in Lists : Len(z2) = 2}, o \in {Anon, [hn |-> 1, n |-> <<StrA, <<1>>>>]}, z \in [1..2 -> Ints2]})
  \cup Of("C05", {LG({NP}, q, o, <<>>, OpP({"vec_c"}, SpecP)) : q \in Lists, o \in UNION {Outers(m) : m \in 0..3}})
  \cup Of("C18", {LG({NP}, q, Anon, <<>>, OpP({"vec_interleave"}, [spec : {"null"}, repair : {"minimal"}])) : q \in Lists})
WellFormed(c) == "xs" \notin DOMAIN c.l \/ c.ln.xs.hn = 0 \/ Len(c.ln.xs.n) = Len(c.l.xs)
ASSUME Write(SetToSeq({c \in Cases : WellFormed(c)}))
=============================================================================
