------------------------------- MODULE MCBase -------------------------------
(* Small universes shared by the models. *)
EXTENDS Conform, Json, IOUtils

Ch(c) == <<1, c>>
StrA == Ch(97)
StrB == Ch(98)
SeqUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
IntRows(S, n) == {[k \in 1..Len(f) |-> <<ElemOf(f[k])>>] : f \in SeqUpTo(S, n)}
IntVecs(S, n) == {Vec(BareShell("int"), r, 0, <<>>) : r \in IntRows(S, n)}
LglVecs(S, n) == {Vec(BareShell("lgl"), r, 0, <<>>) : r \in IntRows(S, n)}
ChrVec(es) == Vec(BareShell("chr"), [k \in 1..Len(es) |-> <<es[k]>>], 0, <<>>)
ChrVecs(S, n) == {ChrVec(es) : es \in SeqUpTo(S, n)}
DblVec(es) == Vec(BareShell("dbl"), [k \in 1..Len(es) |-> <<es[k]>>], 0, <<>>)
DblVecs(S, n) == {DblVec(es) : es \in SeqUpTo(S, n)}
FctShell(levels) == [BareShell("int") EXCEPT !.k = "fct", !.c = "factor", !.l = levels]
DfShell(names, shells) == [BareShell("list") EXCEPT !.k = "df", !.c = "data.frame", !.l = names, !.h = shells, !.x = Const(Len(names), 0)]
WithNames(v, ns) == [v EXCEPT !.hn = 1, !.n = ns]
(* a two column data frame of integers from row tuples *)
Df2(rows) == Vec(DfShell(<<Ch(120), Ch(121)>>, <<BareShell("int"), BareShell("int")>>),
                 [k \in 1..Len(rows) |-> <<ElemOf(rows[k][1]), ElemOf(rows[k][2])>>], 0, <<>>)
Df2s(S, n) == {Df2(r) : r \in SeqUpTo(S \X S, n)}
(* a group of cases: every argument record with every operation and its options *)
CaseG(vs, ops) == [vs |-> SetToSeq(vs), l |-> <<>>, ln |-> <<>>, ops |-> SetToSeq(ops)]
OpP(ops, ps) == {[op |-> o, p |-> q] : o \in ops, q \in ps}
Write(cases) == IF "CASES" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.CASES, cases) ELSE TRUE
Quick == "TIER" \notin DOMAIN IOEnv \/ IOEnv.TIER # "thorough"
=============================================================================
