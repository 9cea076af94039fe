------------------------------ MODULE MC_Join ------------------------------
(* Locating matches one needle at a time. The transition system emits the rows of each needle in turn, tracking which
   haystack rows were used and which constraint is violated; with multiple = "any" the choice of the match is
   nondeterministic. It must agree with the declarative result (Join!JoinResult), and both with the laws below. *)
EXTENDS MCBase
Elems == {1, 2, NA}
D(x) == IntToDbl(x)
Dbls == {D(1), <<>>, <<0>>}
IntP == {<<x, y>> \in IntVecs(Elems, 2) \X IntVecs(Elems, IF Quick THEN 2 ELSE 3) : TRUE}
DblP == {<<x, y>> \in DblVecs(Dbls, 2) \X DblVecs(Dbls, 2) : Size(x) > 0}
DfP == {<<x, y>> \in Df2s({1, 2}, 1) \X Df2s({1, 2}, IF Quick THEN 2 ELSE 3) : Size(x) > 0}
DfQ == {<<x, y>> \in Df2s({1, NA}, 2) \X Df2s({1, NA}, 1) : Size(x) > 0}
P0 == [cond |-> <<"==">>, filt |-> <<"none">>, inc |-> "compare", incv |-> NA, nomatch |-> "value", nomatchv |-> NA,
       remaining |-> "drop", remainingv |-> NA, multiple |-> "all", rel |-> "none", nd |-> 0, collate |-> 0]
Incs == {"compare", "match", "drop", "error", "value"}
Acts == {"drop", "error", "value"}
Rels == {"none", "one-to-one", "one-to-many", "many-to-one", "many-to-many", "warn-many-to-many"}
Mults == {"all", "any", "first", "last"}
One == {<<c>> : c \in Cond}
Two == {<<c, d>> : c \in Cond, d \in Cond}
F2 == {<<"none">>, <<"max">>, <<"min">>, <<"min", "max">>, <<"none", "max">>}
(* option groups *)
OptA == {[P0 EXCEPT !.cond = c, !.filt = <<f>>, !.inc = i, !.multiple = m, !.incv = 7] : c \in One, f \in Filt, i \in Incs, m \in (IF Quick THEN {"all", "any"} ELSE {"all", "any", "last"})}
OptB == {[P0 EXCEPT !.cond = <<c>>, !.nomatch = n, !.remaining = r, !.multiple = m, !.rel = q, !.nomatchv = 0] : c \in {"==", "<="}, n \in {"drop", "error", "value"}, r \in Acts, m \in {"all", "any", "first"}, q \in Rels}
OptC == {[P0 EXCEPT !.cond = c, !.filt = f, !.multiple = m] : c \in Two, f \in F2, m \in {"all", "any"}}
OptD == {[P0 EXCEPT !.cond = c, !.inc = i, !.remaining = "value"] : c \in {<<"==">>, <<"<=", "==">>, <<"==", ">">>}, i \in Incs}
OptE == {[P0 EXCEPT !.cond = <<c>>, !.nd = d, !.inc = i] : c \in Cond, d \in {0, 1}, i \in {"compare", "match"}}
Start(PS, OS) == {<<q, p>> : q \in PS, p \in OS}
Big(S) == S \* every pair of vectors with every option
VARIABLES x, y, p, J, i, rows, hits, warnm
vars == <<x, y, p, J, i, rows, hits, warnm>>
Init == /\ \E q \in (IntP \cup DblP \cup DfP \cup DfQ) : x = q[1] /\ y = q[2]
        /\ p = P0 /\ J = <<>> /\ i = 0 /\ rows = <<>> /\ hits = {} /\ warnm = FALSE
Opts == IF <<x, y>> \in IntP THEN OptA \cup (IF Size(x) > 0 /\ Size(y) > 0 /\ Size(y) <= 2 THEN OptB ELSE {}) ELSE IF x.s.k = "dbl" THEN OptE ELSE IF <<x, y>> \in DfP THEN OptC ELSE OptD
Choose == i = 0 /\ p' \in Opts /\ J' = TLCEval(JoinCols(x, y, p'.nd, FALSE)) /\ i' = 1 /\ UNCHANGED <<x, y, rows, hits, warnm>>
ops == PerCol(p.cond, J.nc)
filt == PerCol(p.filt, J.nc)
skip == p.inc \in {"drop", "error", "value"}
Sel == Filtered(J, filt, Matches(J, ops, i, p.inc))
(* one needle *)
Step ==
  /\ i >= 1 /\ i <= J.nx /\ i' = i + 1 /\ UNCHANGED <<x, y, p, J>>
  /\ IF skip /\ Incomplete(J, i)
     THEN /\ p.inc # "error" /\ rows' = rows \o (IF p.inc = "value" THEN <<<<i, p.incv>>>> ELSE <<>>) /\ UNCHANGED <<hits, warnm>>
     ELSE IF Sel = <<>>
     THEN /\ p.nomatch # "error" /\ rows' = rows \o (IF p.nomatch = "value" THEN <<<<i, p.nomatchv>>>> ELSE <<>>) /\ UNCHANGED <<hits, warnm>>
     ELSE \E m \in (IF p.multiple = "any" THEN {<<Sel[k]>> : k \in 1..Len(Sel)} ELSE {Reduce(Sel, p.multiple)}) :
            /\ Len(m) > 1 => p.rel \notin {"one-to-one", "many-to-one"}
            /\ p.rel \in {"one-to-one", "one-to-many"} => Range1(m) \cap hits = {}
            /\ rows' = rows \o [k \in 1..Len(m) |-> <<i, m[k]>>]
            /\ hits' = hits \cup Range1(m)
            /\ warnm' = (warnm \/ Len(m) > 1)
Next == Choose \/ Step
Done == i > 0 /\ i = J.nx + 1
Result == TLCEval(JoinResult(J, p))
Rem == Which(J.ny, LAMBDA j : j \notin hits)
Out == rows \o (IF p.remaining = "value" THEN [k \in 1..Len(Rem) |-> <<p.remainingv, Rem[k]>>] ELSE <<>>)
Fails == Done /\ p.remaining = "error" /\ Rem # <<>>
(* C14 *)
Agree == Done /\ p.multiple # "any" => IF Fails THEN Result.errs # {} ELSE Result.errs = {} /\ Result.rows = Out
AgreeAny == Done /\ ~Fails /\ p.multiple = "any" => AnyOk(J, p, Out, {}, {})
(* a behaviour that stops before the end does so because a constraint is violated *)
StuckIsError == (i >= 1 /\ i <= J.nx /\ ~ENABLED Step) => (IF p.multiple = "any" THEN p.rel \in {"one-to-one", "one-to-many"} \/ Result.errs # {} ELSE Result.errs # {})
NeedlesAscend == \A k \in 1..(Len(rows) - 1) : rows[k][1] < rows[k + 1][1] \/ (rows[k][1] = rows[k + 1][1] /\ rows[k][2] < rows[k + 1][2])
EveryRowMatches == i > 0 => \A k \in 1..Len(rows) : (rows[k][2] \in 1..J.ny /\ rows[k][2] # p.incv /\ rows[k][2] # p.nomatchv) =>
   \A c \in 1..J.nc : ColMatch(J, c, ops[c], rows[k][1], rows[k][2], p.inc)
FilterLaw == (i >= 1 /\ i <= J.nx) => LET M == Matches(J, ops, i, p.inc) IN (M # <<>> => Sel # <<>>) /\ Range1(Sel) \subseteq Range1(M)
   /\ \A a \in Range1(Sel), b \in Range1(Sel) : ~Better(J, filt, a, b)
Flip(op) == CASE op = "<" -> ">" [] op = "<=" -> ">=" [] op = ">" -> "<" [] op = ">=" -> "<=" [] OTHER -> op
(* exchanging the sides and flipping the conditions transposes the relation *)
Transposed == i = 1 => LET K == TLCEval(JoinCols(y, x, p.nd, FALSE)) IN
  \A a \in 1..J.nx, b \in 1..J.ny : (b \in Range1(Matches(J, ops, a, p.inc))) = (a \in Range1(Matches(K, [c \in 1..J.nc |-> Flip(ops[c])], b, p.inc)))
(* < , == and > partition the complete pairs of one column *)
Trichotomy == (i = 1 /\ J.nc = 1) => \A a \in 1..J.nx, b \in 1..J.ny : J.c[1][a] /\ J.c[1][J.nx + b] =>
  Cardinality({op \in {"<", "==", ">"} : ColMatch(J, 1, op, a, b, "compare")}) = 1
(* the equality join with multiple = "first" is vec_match *)
IsVecMatch == (i = 1 /\ J.ny > 0 /\ p.nd = 1) => LET m == VecMatch(x, y, 1) IN
  \A a \in 1..J.nx : LET M == Matches(J, Const(J.nc, "=="), a, "compare") IN m.i[a] = (IF M = <<>> THEN 0 ELSE M[1])
V2(PS) == {[x |-> q[1], y |-> q[2]] : q \in PS}
Cases == {CaseG(V2(IntP), OpP({"vec_locate_matches"}, OptA)), CaseG(V2({q \in IntP : Size(q[1]) > 0 /\ Size(q[2]) > 0 /\ Size(q[2]) <= 2}), OpP({"vec_locate_matches"}, OptB)),
          CaseG(V2(DblP), OpP({"vec_locate_matches"}, OptE)), CaseG(V2(DfP), OpP({"vec_locate_matches"}, OptC)), CaseG(V2(DfQ), OpP({"vec_locate_matches"}, OptD))}
ASSUME Write(SetToSeq(Cases))
=============================================================================
