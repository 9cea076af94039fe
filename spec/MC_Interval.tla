----------------------------- MODULE MC_Interval -----------------------------
(* Intervals over a small line. The transition system inserts the intervals one at a time, in any order, into a set of
   disjoint merged intervals; whatever the order it ends in the groups of the sweep (Interval!IvGroups). *)
EXTENDS MCBase
Hi == IF Quick THEN 5 ELSE 6
NMax == IF Quick THEN 3 ELSE 4
Pairs == {<<a, b>> \in (1..Hi) \X (1..Hi) : a < b} \cup {<<NA, NA>>}
IvSeqs == SeqUpTo(Pairs, NMax)
IntOfs(f) == IntVec([k \in 1..Len(f) |-> f[k]])
X0(q) == IntOfs([k \in 1..Len(q) |-> q[k][1]])
Y0(q) == IntOfs([k \in 1..Len(q) |-> q[k][2]])
(* the end points are already integers *)
Iv(q, lo, up) == [n |-> Len(q), s |-> [k \in 1..Len(q) |-> IF q[k][1] = NA THEN 0 ELSE q[k][1]], e |-> [k \in 1..Len(q) |-> IF q[k][2] = NA THEN 0 ELSE q[k][2]],
                  m |-> [k \in 1..Len(q) |-> q[k][1] = NA], lo |-> lo, up |-> up]
VARIABLES q, abut, left, parts
vars == <<q, abut, left, parts>>
Init == q \in IvSeqs /\ abut \in BOOLEAN /\ left = {k \in 1..Len(q) : q[k][1] # NA} /\ parts = {}
Touch(a, b) == IF abut THEN a[1] <= b[2] /\ b[1] <= a[2] ELSE a[1] < b[2] /\ b[1] < a[2]
MinS(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxS(S) == CHOOSE a \in S : \A b \in S : a >= b
Insert(k) == LET T == {p \in parts : Touch(p, q[k])} U == T \cup {q[k]} IN
  /\ k \in left /\ left' = left \ {k} /\ UNCHANGED <<q, abut>>
  /\ parts' = (parts \ T) \cup {<<MinS({p[1] : p \in U}), MaxS({p[2] : p \in U})>>}
Next == \E k \in left : Insert(k)
Done == left = {}
I0 == Iv(q, 0, 0)
G == TLCEval(IvGroups(I0, abut))
Seg(p) == p[1]..(p[2] - 1) \* the unit segments an interval covers
Cover(S) == UNION {Seg(p) : p \in S}
Whole == {q[k] : k \in {j \in 1..Len(q) : q[j][1] # NA}}
(* C15 *)
Disjoint == \A p, r \in parts : p # r => Seg(p) \cap Seg(r) = {} /\ (abut => p[2] # r[1] /\ r[2] # p[1])
CoverSame == Cover(parts) = Cover({q[k] : k \in {j \in 1..Len(q) : q[j][1] # NA} \ left})
Confluent == Done => parts = {<<I0.s[g.s], I0.e[g.e]>> : g \in Range1(G)} /\ Len(G) = Cardinality(parts)
Sorted == Done => \A j \in 1..(Len(G) - 1) : I0.s[G[j].s] < I0.s[G[j+1].s]
MembersOnce == Done => /\ \A j \in 1..Len(G) : \A k \in Range1(G[j].i) : I0.s[G[j].s] <= I0.s[k] /\ I0.e[k] <= I0.e[G[j].e]
                       /\ LET all == Concat([j \in 1..Len(G) |-> G[j].i]) IN Range1(all) = {k \in 1..Len(q) : ~I0.m[k]} /\ AllDistinct(all)
Minimal == Done /\ abut => \A p \in Whole : \E r \in parts : Seg(p) \subseteq Seg(r)
Bounds == {0} \cup 1..Hi
CompLaw == Done /\ abut => \A lo, up \in Bounds :
  LET I == Iv(q, lo, up) gs == IvGaps(I)
      a == IF lo # 0 THEN lo ELSE IF Whole = {} THEN 0 ELSE MinS({p[1] : p \in Whole})
      b == IF up # 0 THEN up ELSE IF Whole = {} THEN 0 ELSE MaxS({p[2] : p \in Whole})
      span == IF a = 0 \/ b = 0 THEN {} ELSE a..(b - 1)
      out == {<<g.a, g.b>> : g \in Range1(gs)}
  IN /\ Cover(out) = span \ Cover(Whole)
     /\ \A j \in 1..(Len(gs) - 1) : gs[j].b < gs[j+1].a
     /\ \A j \in 1..Len(gs) : gs[j].a < gs[j].b
     (* the complement of the complement within the same bounds is what was covered there *)
     /\ (lo # 0 /\ up # 0 /\ lo < up => LET r == SetToSeq(out) IN Cover({<<g.a, g.b>> : g \in Range1(IvGaps(Iv(r, lo, up)))}) = span \cap Cover(Whole))
ContainLaw == Done => LET C == IvContainers(I0) V == SelectSeq(C, LAMBDA k : ~I0.m[k]) IN
  /\ \A k \in 1..Len(q) : ~I0.m[k] => \E j \in Range1(V) : Encloses(I0, j, k)
  /\ \A j, k \in Range1(V) : j # k => ~Encloses(I0, j, k)
  /\ \A j \in 1..(Len(V) - 1) : I0.s[V[j]] < I0.s[V[j+1]] /\ I0.e[V[j]] < I0.e[V[j+1]]
  /\ Cover({<<I0.s[k], I0.e[k]>> : k \in Range1(V)}) = Cover(Whole)
SE(QS) == {[start |-> X0(w), end |-> Y0(w)] : w \in QS}
B(b) == IF b = 0 THEN NullVec ELSE IntVec(<<b>>)
SEB(QS) == {[start |-> X0(w), end |-> Y0(w), lower |-> B(lo), upper |-> B(up)] : w \in QS, lo \in Bounds, up \in Bounds}
Some == {w \in IvSeqs : Len(w) <= 2 /\ \A k \in 1..Len(w) : w[k][1] # NA}
Cases == {CaseG(SE(IvSeqs), OpP({"vec_interval_groups", "vec_interval_locate_groups"}, [abutting : {0, 1}, missing : {"group", "drop"}]) \cup {[op |-> "vec_interval_locate_containers", p |-> [abutting |-> 0]]}),
          CaseG(SEB(Some), {[op |-> "vec_interval_complement", p |-> [abutting |-> 0]]})}
ASSUME Write(SetToSeq(Cases))
=============================================================================
