------------------------------- MODULE MC_Session -------------------------------
(* How operations share memory and still behave as functions of values (C20), and how they leave nothing behind when a
   callback fails in the middle (C21). Registers hold cells; a cell is a vector ("leaf") or a data frame of two cells ("node").
   An operation runs in small steps over cells: it copies a cell that anything else refers to before writing to it, marks
   strings while it orders and unmarks them at the end or when it is left early. The ghost vals is what the registers hold
   when every operation is a pure function of values: memory must agree with it whenever no operation is running. *)
EXTENDS MCBase
CONSTANT Defect \* "none"; "noclone", "shallow", "noreset", "nosave": what an implementation may get wrong
R == 1..3
NStr == 2
MaxOps == IF Quick THEN 3 ELSE 4
VARIABLES reg, cell, marks, op, vals, done
vars == <<reg, cell, marks, op, vals, done>>
(* ---- values *)
LeafV(v, n) == [t |-> "leaf", v |-> v, n |-> n, k |-> <<>>]
FrameV(a, b) == [t |-> "node", v |-> <<>>, n |-> <<>>, k |-> <<a, b>>]
RECURSIVE Deep(_, _)
Deep(m, c) == IF m[c].t = "leaf" THEN LeafV(m[c].v, m[c].n) ELSE FrameV(Deep(m, m[c].k[1]), Deep(m, m[c].k[2]))
(* ---- what operations mean *)
PickRows(q, ix) == [j \in 1..Len(ix) |-> q[ix[j]]]
SliceLeaf(x, ix) == LeafV(PickRows(x.v, ix), IF x.n = <<>> THEN <<>> ELSE PickRows(x.n, ix))
AssignLeaf(x, y) == LeafV([x.v EXCEPT ![1] = y.v[2]], x.n)
OnLeaves(F(_), x) == IF x.t = "leaf" THEN F(x) ELSE FrameV(F(x.k[1]), F(x.k[2]))
Means(h, o) == CASE o.op = "share" -> h[o.s]
                 [] o.op = "slice" -> OnLeaves(LAMBDA x : SliceLeaf(x, o.ix), h[o.s])
                 [] o.op = "assign" -> IF h[o.s].t = "leaf" THEN AssignLeaf(h[o.s], h[o.u]) ELSE FrameV(AssignLeaf(h[o.s].k[1], h[o.u].k[1]), AssignLeaf(h[o.s].k[2], h[o.u].k[2]))
                 [] o.op = "col" -> h[o.s].k[1]
                 [] o.op = "wrap" -> FrameV(h[o.s], h[o.u])
                 [] o.op = "names" -> LeafV(h[o.s].v, <<1, 2>>)
                 [] OTHER -> h[o.s] \* order: its result goes nowhere
Defined(h, o) == CASE o.op = "assign" -> h[o.s].t = h[o.u].t
                   [] o.op = "col" -> h[o.s].t = "node"
                   [] o.op = "wrap" -> h[o.s].t = "leaf" /\ h[o.u].t = "leaf"
                   [] o.op = "names" -> h[o.s].t = "leaf"
                   [] OTHER -> TRUE
Apply(h, o) == IF o.op = "order" THEN h ELSE [h EXCEPT ![o.d] = Means(h, o)]
Op(name, s, u, d, ix) == [op |-> name, s |-> s, u |-> u, d |-> d, ix |-> ix]
Ops == {Op("share", s, 1, d, <<>>) : s \in R, d \in R} \cup {Op("slice", s, 1, d, ix) : s \in R, d \in R, ix \in {<<2, 1>>, <<2, 2>>}}
  \cup {Op("assign", s, u, d, <<>>) : s \in R, u \in R, d \in R} \cup {Op("col", s, 1, d, <<>>) : s \in R, d \in R}
  \cup {Op("wrap", s, u, d, <<>>) : s \in R, u \in R, d \in R} \cup {Op("names", s, 1, d, <<>>) : s \in R, d \in R} \cup {Op("order", s, 1, 1, <<>>) : s \in R}
(* ---- memory *)
Cells == 1..12
Free == [t |-> "free", v |-> <<>>, n |-> <<>>, k |-> <<>>]
Leaf(v) == [t |-> "leaf", v |-> v, n |-> <<>>, k |-> <<>>]
Node(a, b) == [t |-> "node", v |-> <<>>, n |-> <<>>, k |-> <<a, b>>]
Idle == [op |-> "idle"]
Temps == IF op.op = "idle" THEN {} ELSE {op.out} \ {0}
RECURSIVE ReachFrom(_, _)
ReachFrom(m, cs) == cs \cup UNION {IF m[c].t = "node" THEN {m[c].k[1], m[c].k[2]} ELSE {} : c \in cs}
Live == ReachFrom(cell, {reg[r] : r \in R} \cup Temps)
Fresh(m) == CHOOSE c \in Cells : m[c].t = "free" /\ \A e \in Cells : m[e].t = "free" => c <= e
(* who refers to a cell: registers (the caller's variables) and data frames *)
Refs(m, c) == Cardinality({r \in R : reg[r] = c}) + Cardinality({<<e, j>> \in Cells \X {1, 2} : m[e].t = "node" /\ m[e].k[j] = c})
Sweep(m, keep) == [c \in Cells |-> IF c \in ReachFrom(m, keep) THEN m[c] ELSE Free]
marks0 == [s \in 1..NStr |-> IF s = 1 THEN "hash" ELSE "none"] \* R keeps something in some strings
Begins == {[reg |-> <<1, 1, 3>>, cell |-> [c \in Cells |-> IF c = 1 THEN Leaf(<<1, 2>>) ELSE IF c = 2 THEN Leaf(<<2, 1>>) ELSE IF c = 3 THEN Node(1, 2) ELSE Free]],
           [reg |-> <<3, 3, 1>>, cell |-> [c \in Cells |-> IF c = 1 THEN Leaf(<<2, 1>>) ELSE IF c = 3 THEN Node(1, 1) ELSE Free]]}
Init == \E st \in Begins : reg = st.reg /\ cell = st.cell /\ marks = marks0 /\ op = Idle /\ vals = [r \in R |-> Deep(st.cell, st.reg[r])] /\ done = 0
(* ---- an operation starts, advances column by column, and ends or is left at a callback *)
Begin == \E o \in Ops : /\ op.op = "idle" /\ done < MaxOps /\ Defined(vals, o)
  /\ op' = [op |-> o.op, o |-> o, out |-> 0, j |-> 0, saved |-> [s \in {} |-> ""]] /\ UNCHANGED <<reg, cell, marks, vals, done>>
IsFrame(c) == cell[c].t = "node"
Src == reg[op.o.s]
LastCol == IF IsFrame(Src) THEN 2 ELSE 1
(* immediate operations *)
Finish(m, out, mk) == /\ reg' = (IF op.op = "order" THEN reg ELSE [reg EXCEPT ![op.o.d] = out])
                      /\ cell' = Sweep(m, {reg'[r] : r \in R}) /\ marks' = mk /\ op' = Idle /\ vals' = Apply(vals, op.o) /\ done' = done + 1
Share == op.op = "share" /\ Finish(cell, Src, marks)
Col == op.op = "col" /\ Finish(cell, cell[Src].k[1], marks)
Wrap == op.op = "wrap" /\ LET c == Fresh(cell) IN Finish([cell EXCEPT ![c] = Node(Src, reg[op.o.u])], c, marks)
(* the argument is referenced by its register: the copy is what gets the names *)
DoNames == op.op = "names" /\ IF Defect = "noclone" THEN Finish([cell EXCEPT ![Src].n = <<1, 2>>], Src, marks)
                               ELSE LET c == Fresh(cell) IN Finish([cell EXCEPT ![c] = [cell[Src] EXCEPT !.n = <<1, 2>>]], c, marks)
(* slice and assign: a new frame first, then its columns; assign writes into a column it owns and copies one it does not own *)
OpenFrame ==
  /\ op.op \in {"slice", "assign"} /\ op.j = 0 /\ op.out = 0
  /\ IF IsFrame(Src) /\ ~(op.op = "assign" /\ Defect = "shallow")
     THEN LET c == Fresh(cell) IN cell' = [cell EXCEPT ![c] = cell[Src]] /\ op' = [op EXCEPT !.out = c, !.j = 1]
     ELSE cell' = cell /\ op' = [op EXCEPT !.out = IF IsFrame(Src) THEN Src ELSE 0, !.j = 1]
  /\ UNCHANGED <<reg, marks, vals, done>>
SrcLeaf == IF IsFrame(Src) THEN cell[op.out].k[op.j] ELSE Src
ValLeaf == LET u == reg[op.o.u] IN IF IsFrame(u) THEN cell[cell[u].k[op.j]] ELSE cell[u]
NewLeaf == LET x == cell[SrcLeaf] IN IF op.op = "slice" THEN [x EXCEPT !.v = PickRows(x.v, op.o.ix), !.n = IF x.n = <<>> THEN <<>> ELSE PickRows(x.n, op.o.ix)]
                                     ELSE [x EXCEPT !.v = [x.v EXCEPT ![1] = ValLeaf.v[2]]]
Owned == op.op = "assign" /\ (Defect = "noclone" \/ Refs(cell, SrcLeaf) = (IF IsFrame(Src) THEN 1 ELSE 0))
DoColumn == /\ op.op \in {"slice", "assign"} /\ op.j \in 1..LastCol
  /\ LET c == IF Owned THEN SrcLeaf ELSE Fresh(cell)
         m == [cell EXCEPT ![c] = NewLeaf]
         m2 == IF IsFrame(Src) THEN [m EXCEPT ![op.out].k[op.j] = c] ELSE m
         out == IF IsFrame(Src) THEN op.out ELSE c IN
     IF op.j = LastCol THEN Finish(m2, out, marks)
     ELSE cell' = Sweep(m2, {reg[r] : r \in R} \cup {out}) /\ op' = [op EXCEPT !.out = out, !.j = @ + 1] /\ UNCHANGED <<reg, marks, vals, done>>
(* order: the strings of a column are marked, counted and unmarked before the next column *)
OrderLeaf == IF IsFrame(Src) THEN cell[cell[Src].k[(op.j \div 2) + 1]] ELSE cell[Src]
StringsOf(x) == {x.v[k] : k \in 1..Len(x.v)}
Unmark == [s \in 1..NStr |-> IF marks[s] # "vctrs" THEN marks[s] ELSE IF s \in DOMAIN op.saved /\ Defect # "nosave" THEN op.saved[s] ELSE "none"]
MarkColumn == /\ op.op = "order" /\ op.j % 2 = 0
  /\ op' = [op EXCEPT !.j = @ + 1, !.saved = [s \in {z \in StringsOf(OrderLeaf) : marks[z] = "hash"} |-> marks[s]]]
  /\ marks' = [s \in 1..NStr |-> IF s \in StringsOf(OrderLeaf) THEN "vctrs" ELSE marks[s]] /\ UNCHANGED <<reg, cell, vals, done>>
UnmarkColumn == /\ op.op = "order" /\ op.j % 2 = 1
  /\ IF op.j = 2 * LastCol - 1 THEN Finish(cell, 0, Unmark)
     ELSE marks' = Unmark /\ op' = [op EXCEPT !.j = @ + 1] /\ UNCHANGED <<reg, cell, vals, done>>
(* a callback fails: the operation is left where it is *)
LeaveEarly == /\ op.op \in {"slice", "assign", "order"} /\ op' = Idle /\ done' = done + 1
        /\ cell' = Sweep(cell, {reg[r] : r \in R})
        /\ marks' = (IF op.op = "order" /\ Defect # "noreset" THEN Unmark ELSE marks) /\ UNCHANGED <<reg, vals>>
Next == Begin \/ Share \/ Col \/ Wrap \/ DoNames \/ OpenFrame \/ DoColumn \/ MarkColumn \/ UnmarkColumn \/ LeaveEarly
(* ---- C20, C21 *)
Resting == op.op = "idle"
MemoryIsValues == Resting => \A r \in R : Deep(cell, reg[r]) = vals[r]
(* even in the middle of an operation, what the caller holds is what it was *)
FrozenMeanwhile == \A r \in R : Deep(cell, reg[r]) = vals[r]
NothingLeft == Resting => marks = marks0
NoLeak == \A c \in Cells : cell[c].t # "free" <=> c \in Live
NoCycles == \A c \in Cells : cell[c].t = "node" => \A j \in {1, 2} : cell[cell[c].k[j]].t = "leaf"
(* ---- histories to be replayed on the real package, with what the registers must hold after every operation *)
StartVals(st) == [r \in R |-> Deep(st.cell, st.reg[r])]
At(h, S) == {o \in S : Defined(h, o)}
(* every history of length 1 and 2; for C20 the thorough tier adds some of length 3, which first share memory, then write, then write again *)
One(i, h) == {[start |-> i, ops |-> <<a>>, want |-> <<Apply(h, a)>>] : a \in At(h, Ops)}
Then(c, S) == LET h == c.want[Len(c.want)] IN {[c EXCEPT !.ops = Append(@, b), !.want = Append(@, Apply(h, b))] : b \in At(h, S)}
Sharing == {o \in Ops : o.op \in {"share", "col", "wrap"}}
Writing == {o \in Ops : o.op \in {"assign", "names", "slice"}}
Histories(i, h) == LET one == One(i, h) two == UNION {Then(c, Ops) : c \in one} IN
  two \cup (IF Quick \/ ~("GROUP" \in DOMAIN IOEnv /\ IOEnv.GROUP = "C20") THEN {}
            ELSE UNION {Then(c, {o \in Ops : o.op = "assign" /\ o.u = 1}) : c \in UNION {Then(c, Writing) : c \in {x \in one : x.ops[1] \in Sharing}}})
StartSeq == <<CHOOSE s \in Begins : s.reg[3] = 3, CHOOSE s \in Begins : s.reg[3] = 1>>
Cases == UNION {Histories(i, StartVals(StartSeq[i])) : i \in 1..2}
ASSUME "CASES" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.CASES, SetToSeq(Cases))
=============================================================================
