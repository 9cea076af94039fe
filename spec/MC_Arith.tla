------------------------------ MODULE MC_Arith ------------------------------
(* A quantity (instants, durations or numbers) is moved by amounts, one operation at a time; what was done can be undone. *)
EXTENDS MCBase
OfNum(leaf, q) == IF q.t = 1 THEN <<>> ELSE IF leaf # "dbl" THEN <<q.v \div 2>> ELSE IF q.t = 2 THEN InfE(1) ELSE IF q.t = 3 THEN InfE(-1) ELSE HalfE(q.v)
OfNums(s, m) == Vec(s, [k \in 1..Len(m) |-> [j \in 1..Len(m[k]) |-> OfNum(s.st, m[k][j])]], 0, <<>>)
Known(r) == r.ok = 1 /\ ~HasT(r.m, 4) /\ ~HasT(r.m, 5)
VecOf(s, vs) == OfNums(s, [k \in 1..Len(vs) |-> <<vs[k]>>])
Utc == <<>>
Day == DateShell
Time == DttmShell("UTC")
N(x) == Fin(2 * x)
Nums == {N(0), N(2), Fin(-3), Miss, PosInf}
Days1 == {N(0), N(1), N(-3), Miss}
Secs1 == {N(0), N(86400), Fin(7), Miss}
DurS(u) == DurShell(u)
DurNums(u) == IF u = "secs" THEN {N(86400), N(-172800), Fin(1), Miss} ELSE IF u = "hours" THEN {N(24), N(1), N(12)} ELSE {N(1), N(-2), Fin(1), Miss, PosInf}
DurUnits == IF Quick THEN {"secs", "hours", "days"} ELSE {"secs", "mins", "hours", "days", "weeks"}
Of1(s, S, n) == {VecOf(s, f) : f \in SeqUpTo(S, n)}
Sz == IF Quick THEN 1 ELSE 2
Durs == UNION {Of1(DurS(u), DurNums(u), 1) : u \in DurUnits} \cup {VecOf(DurS("hours"), <<N(24), N(-48)>>)}
Insts == Of1(Day, Days1, Sz) \cup Of1(Time, Secs1, Sz) \cup {VecOf(Day, <<N(1), N(5)>>), VecOf(Time, <<N(1), Miss>>)}
Numbers == Of1(BareShell("dbl"), Nums, 1) \cup Of1(BareShell("int"), {N(0), N(2), N(-3), Miss}, 1) \cup Of1(LglShell, {N(0), N(1), Miss}, 1)
           \cup {VecOf(BareShell("int"), <<N(5), N(-7)>>), VecOf(BareShell("dbl"), <<N(5), Fin(1), Miss>>)}
All == Durs \cup Insts \cup Numbers
Tiny == {VecOf(DurS("days"), <<N(1)>>), VecOf(DurS("secs"), <<N(86400)>>), VecOf(DurS("hours"), <<N(24), Miss>>), VecOf(BareShell("int"), <<N(2)>>), VecOf(BareShell("dbl"), <<N(-3), Fin(1)>>)}
VARIABLES x0, x, y, op, r, log
vars == <<x0, x, y, op, r, log>>
Nothing == [ok |-> 9]
Init == x0 \in All /\ x = x0 /\ y = NullVec /\ op = "" /\ r = Nothing /\ log = <<>>
(* one operation with any operand; its result is what further operations move *)
Apply(f, w) ==
  LET e == VecArith(f, x, w) IN
  /\ op' = f /\ y' = w /\ r' = e /\ UNCHANGED x0
  /\ log' = Append(log, <<f, w, x>>)
  /\ x' = IF e.ok = 1 /\ Known(e) THEN OfNums(e.s, e.m) ELSE x
Ask == log = <<>> /\ \E f \in ArithOps, w \in All : Apply(f, w)
Move == Len(log) \in 1..(IF Quick THEN 1 ELSE 2) /\ r.ok = 1 /\ op \in {"+", "-"} /\ \E f \in {"+", "-"}, w \in Tiny : Apply(f, w)
Next == Ask \/ Move
Asked == op # ""
Before == log[Len(log)][3]
Type(v) == IF v.s.k = "date" THEN "date" ELSE IF v.s.k = "dttm" THEN "time" ELSE IF v.s.k = "dur" THEN "dur" ELSE IF v.s.k = "lgl" THEN "lgl" ELSE "num"
(* C24: the documented table *)
Table == {<<"date", "-", "date", "dur">>, <<"time", "-", "time", "dur">>, <<"date", "-", "time", "dur">>, <<"time", "-", "date", "dur">>,
          <<"dur", "/", "dur", "num">>, <<"dur", "%/%", "dur", "num">>, <<"dur", "%%", "dur", "num">>, <<"dur", "+", "dur", "dur">>, <<"dur", "-", "dur", "dur">>}
  \cup UNION {{<<t, "+", a, t>>, <<t, "-", a, t>>, <<a, "+", t, t>>} : t \in {"date", "time"}, a \in {"num", "dur"}}
  \cup {<<"dur", f, "num", "dur">> : f \in {"+", "-", "*", "/", "%/%", "%%"}} \cup {<<"num", f, "dur", "dur">> : f \in {"+", "-", "*", "%/%", "%%"}}
  \cup {<<a, f, b, "num">> : a, b \in {"num", "lgl"}, f \in ArithOps \ {"&", "|"}} \cup {<<a, f, b, "lgl">> : a, b \in {"num", "lgl"}, f \in {"&", "|"}}
TableLaw == (Asked /\ r.ok # 2) =>
  LET T == {q \in Table : q[1] = Type(Before) /\ q[2] = op /\ q[3] = Type(y)} IN
  IF r.ok = 0 THEN T = {} \/ r.err \in {SizeErr, {"vctrs_error_cast_lossy"}, {"any"}} ELSE \E q \in T : q[4] = Type([s |-> r.s])
Defined == Asked /\ r.ok = 1
SizeLaw == Defined => LET a == Size(Before) b == Size(y) IN (a = b \/ 1 \in {a, b}) /\ Len(r.m) = (IF a = 1 THEN b ELSE a)
At(v, k) == IF Size(v) = 1 THEN v ELSE Slice(v, <<k>>)
RowLaw == Defined => \A k \in 1..Len(r.m) : LET e == VecArith(op, At(Before, k), At(y, k)) IN e.ok = 1 /\ e.s = r.s /\ e.m = <<r.m[k]>>
MissLaw == (Defined /\ op \notin {"^", "&", "|"}) => \A k \in 1..Len(r.m) :
  (At(Before, k).r[1][1] = <<>> \/ At(y, k).r[1][1] = <<>>) => r.m[k][1].t = 1
Commute == (Asked /\ op \in {"+", "*", "&", "|"} /\ Type(Before) # Type(y)) => LET e == VecArith(op, y, Before) IN
  IF r.ok = 1 THEN e.ok = 1 /\ e.s = r.s /\ e.m = r.m ELSE op = "+" => e.ok = r.ok
Finite(m) == ~HasT(m, 1) /\ ~HasT(m, 2) /\ ~HasT(m, 3) /\ ~HasT(m, 4)
(* moving forward and back returns to the start, whatever the units *)
Undo == (Defined /\ op \in {"+", "-"} /\ Known(r) /\ Finite(r.m) /\ Type(Before) = Type(x)) =>
  LET e == VecArith(IF op = "+" THEN "-" ELSE "+", x, y) IN
  e.ok = 1 /\ Type([s |-> e.s]) = Type(Before) /\ (Type(x) # "dur" => e.s = (IF Type(x) \in {"date", "time"} THEN Before.s ELSE e.s))
  /\ LET back == IF Type(x) = "dur" THEN InSecs(NumsOf(Before), Before.s.p) ELSE NumsOf(Before) got == IF Type(x) = "dur" THEN InSecs(e.m, e.s.p) ELSE e.m IN
     \A k \in 1..Len(e.m) : got[k] = RecNum(back, Len(e.m))[k]
(* the difference of two instants is what leads from one to the other *)
Difference == (Defined /\ op = "-" /\ Type(Before) \in {"date", "time"} /\ Type(y) = Type(Before) /\ Known(r) /\ Finite(r.m)) =>
  LET e == VecArith("+", y, x) f == VecArith("+", x, y) IN e.ok = 1 /\ e.s = Before.s /\ e.m = RecNum(NumsOf(Before), Len(e.m)) /\ f.ok = 1 /\ f.m = e.m
SecsOf(e) == InSecs(e.m, e.s.p)
Anti == (Defined /\ op = "-" /\ Known(r) /\ Finite(r.m) /\ Type(Before) \in {"date", "time", "dur"} /\ Type(y) \in {"date", "time", "dur"} /\ Type([s |-> r.s]) = "dur") =>
  LET e == VecArith("-", y, Before) IN e.ok = 1 /\ \A k \in 1..Len(r.m) : SecsOf(e)[k][1] = Neg(SecsOf(r)[k][1])
Mids == {VecOf(Day, <<N(2)>>), VecOf(Time, <<N(7)>>)}
Triangle == (Defined /\ op = "-" /\ Known(r) /\ Finite(r.m) /\ Type(Before) \in {"date", "time"} /\ Type(y) \in {"date", "time"}) => \A w \in Mids :
  LET a == VecArith("-", Before, w) b == VecArith("-", w, y) IN a.ok = 1 /\ b.ok = 1 /\
    \A k \in 1..Len(r.m) : SecsOf(r)[k][1] = Add(RecNum(SecsOf(a), Len(r.m))[k][1], RecNum(SecsOf(b), Len(r.m))[k][1])
(* an instant moves by exactly the duration *)
Exactly == (Defined /\ op \in {"+", "-"} /\ Type(y) = "dur" /\ Type(Before) \in {"date", "time"} /\ Known(r) /\ Finite(r.m)) =>
  LET e == VecArith("-", x, Before) d == InSecs(NumsOf(y), y.s.p) IN e.ok = 1 /\ \A k \in 1..Len(r.m) :
    LET z == RecNum(d, Len(r.m))[k][1] IN SecsOf(e)[k][1] = (IF op = "+" THEN z ELSE Neg(z))
(* the same duration in other units moves as far *)
UnitLaw == (Defined /\ op \in {"+", "-"} /\ Type(y) = "dur" /\ Type(Before) \in {"date", "time"}) =>
  LET w == InSecs(NumsOf(y), y.s.p) IN
  ~HasT(w, 4) => LET e == VecArith(op, Before, OfNums(DurS("secs"), w)) IN e.ok = r.ok /\ e.s = r.s /\ (Known(r) => e.m = r.m)
DivMod == (Defined /\ op = "%/%" /\ Known(r) /\ Finite(r.m) /\ Type(Before) \in {"num", "dur"} /\ Type(y) = Type(Before)) =>
  LET q == x rest == VecArith("%%", Before, y) IN rest.ok = 1 /\ \A k \in 1..Len(r.m) :
    LET ua == IF Type(y) = "dur" /\ Before.s.p # y.s.p THEN InSecs(NumsOf(Before), Before.s.p) ELSE NumsOf(Before)
        ub == IF Type(y) = "dur" /\ Before.s.p # y.s.p THEN InSecs(NumsOf(y), y.s.p) ELSE NumsOf(y)
        a == RecNum(ua, Len(r.m))[k][1] b == RecNum(ub, Len(r.m))[k][1] z == rest.m[k][1] IN
    (a.t = 0 /\ b.t = 0 /\ z.t = 0) => a.v = (r.m[k][1].v \div 2) * b.v + z.v /\ AbsI(z.v) < AbsI(b.v) /\ (z.v = 0 \/ Sgn(z) = Sgn(b))
NegLaw == (op = "" /\ Type(x) = "dur") => LET n == Unary("-", x) z == Unary("-", OfNums(n.s, n.m)) IN n.ok = 1 /\ z.s = x.s /\ z.m = NumsOf(x) /\
  LET s == VecArith("+", x, OfNums(n.s, n.m)) IN s.ok = 1 /\ \A k \in 1..Len(s.m) : s.m[k][1].t \in {0, 1} /\ s.m[k][1].v = 0
(* summaries and math *)
Vctr(v) == [v EXCEPT !.s = [BareShell("dbl") EXCEPT !.k = "vctr", !.c = "vt_vctr/vctrs_vctr"]]
IsDbl == op = "" /\ x.s.k = "dbl"
V0 == Vctr(x)
M(f) == VecMath(f, V0, 0)
CumLaw == (IsDbl /\ Size(x) > 0) => \A p \in {<<"cumsum", "sum">>, <<"cumprod", "prod">>} : LET c == M(p[1]) t == M(p[2]) IN c.m[Size(x)] = t.m[1] /\ c.s = V0.s /\ t.s = V0.s
Bounded == IsDbl => LET f == M("floor") c == M("ceiling") t == M("trunc") IN \A k \in 1..Size(x) :
  LET a == NumsOf(x)[k][1] IN a.t = 0 => f.m[k][1].v <= a.v /\ a.v < f.m[k][1].v + 2 /\ c.m[k][1].v >= a.v /\ a.v > c.m[k][1].v - 2 /\ t.m[k][1] \in {f.m[k][1], c.m[k][1]}
DeMorgan == (op = "" /\ x.s.k = "lgl") => LET n == VecOf(LglShell, [k \in 1..Size(x) |-> LET a == NumsOf(x)[k][1] IN IF a.t = 1 THEN a ELSE Fin(2 - a.v)])
     a == VecMath("any", x, 0).m[1][1] b == VecMath("all", n, 0).m[1][1] IN (a.t = 1 /\ b.t = 1) \/ (a.t = 0 /\ b.t = 0 /\ a.v = 2 - b.v)
Extreme == IsDbl => LET lo == Smallest(V0, 0, FALSE) hi == Smallest(V0, 1, TRUE) IN
  /\ (lo = 0) = (Size(x) = 0)
  /\ \A k \in 1..Size(x) : LET a == NumsOf(x)[k][1] IN a.t # 1 => hi # 0 /\ ~Less(NumsOf(x)[hi][1], a)
P2 == {q \in All \X All : Size(q[1]) + Size(q[2]) <= 3}
Cases == {CaseG({[x |-> q[1], y |-> q[2]] : q \in P2}, OpP({"vec_arith"}, [f : ArithOps, xlt : {0}, ylt : {0}])),
          CaseG({[x |-> w] : w \in All}, OpP({"vec_arith_unary"}, [f : {"+", "-", "!"}]) \cup OpP({"vec_math"}, [f : MathFns, na_rm : {0, 1}]))}
ASSUME Write(SetToSeq(Cases))
=============================================================================
