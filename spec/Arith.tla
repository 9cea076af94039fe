-------------------------------- MODULE Arith --------------------------------
(* Arithmetic between numbers, dates, date-times and durations, and math and summaries on vctrs classes (C24).
   Numbers are exact multiples of one half: [t |-> 0 finite, 1 missing, 2 +infinity, 3 -infinity, 4 not determined here,
   5 the quotient n / d; v |-> twice the value]. *)
EXTENDS Bind

Fin(v) == [t |-> 0, v |-> v]
Miss == [t |-> 1, v |-> 0]
PosInf == [t |-> 2, v |-> 0]
NegInf == [t |-> 3, v |-> 0]
AnyNum == [t |-> 4, v |-> 0]
Halfling == 536870912
InfE(sg) == <<sg * 2147483647, 0, 0, 0>>
ArithBig == 1000000
NumOf(leaf, e) ==
  CASE leaf \in {"lgl", "int"} -> IF e = <<>> THEN Miss ELSE IF AbsI(e[1]) > 2 * ArithBig THEN AnyNum ELSE Fin(2 * e[1])
    [] IsMiss("dbl", e) -> Miss
    [] e = InfE(1) -> PosInf
    [] e = InfE(-1) -> NegInf
    [] Len(e) = 4 /\ e[1] = 0 /\ e[4] = 0 /\ e[3] \in {0, Halfling, -Halfling} /\ AbsI(e[2]) <= 2 * ArithBig -> Fin(2 * e[2] + (e[3] \div Halfling))
    [] OTHER -> AnyNum
HalfE(v) == LET m == AbsI(v) sg == IF v < 0 THEN -1 ELSE 1 IN <<sg * ((m \div 2) \div 4194304), sg * ((m \div 2) % 4194304), sg * (m % 2) * Halfling, 0>>
(* does the element of the result agree with the number? *)
IsNum(leaf, e, q) ==
  CASE q.t = 4 -> TRUE
    [] q.t = 1 -> IF leaf = "dbl" THEN IsMiss("dbl", e) ELSE e = <<>>
    [] q.t = 2 -> e = InfE(1)
    [] q.t = 3 -> e = InfE(-1)
    [] q.t = 5 -> SmallDbl(e) /\ AbsI(Milli(e) * q.d - q.n * 1024) <= AbsI(q.d) + 1
    [] OTHER -> IF leaf = "dbl" THEN NormElem("dbl", e) = HalfE(q.v) ELSE e # <<>> /\ 2 * e[1] = q.v

FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (0 - a) \div (0 - b)
IsInf(a) == a.t \in {2, 3}
Sgn(a) == CASE a.t = 2 -> 1 [] a.t = 3 -> -1 [] OTHER -> IF a.v > 0 THEN 1 ELSE IF a.v < 0 THEN -1 ELSE 0
InfOf(sg) == IF sg > 0 THEN PosInf ELSE IF sg < 0 THEN NegInf ELSE Miss
Neg(a) == CASE a.t = 2 -> NegInf [] a.t = 3 -> PosInf [] a.t = 0 -> Fin(0 - a.v) [] OTHER -> a
Add(a, b) ==
  IF a.t = 1 \/ b.t = 1 THEN Miss ELSE IF a.t >= 4 \/ b.t >= 4 THEN AnyNum
  ELSE IF IsInf(a) /\ IsInf(b) THEN (IF a = b THEN a ELSE Miss)
  ELSE IF IsInf(a) THEN a ELSE IF IsInf(b) THEN b
  ELSE IF AbsI(a.v) > 1000000000 \/ AbsI(b.v) > 1000000000 THEN AnyNum ELSE Fin(a.v + b.v)
Mul(a, b) ==
  IF a.t = 1 \/ b.t = 1 THEN Miss ELSE IF a.t >= 4 \/ b.t >= 4 THEN AnyNum
  ELSE IF IsInf(a) \/ IsInf(b) THEN InfOf(Sgn(a) * Sgn(b))
  ELSE IF AbsI(a.v) > 20000 \/ AbsI(b.v) > 20000 \/ (a.v * b.v) % 2 # 0 THEN AnyNum ELSE Fin((a.v * b.v) \div 2)
(* int: integer division, where nothing is infinite *)
Div(a, b) ==
  IF a.t = 1 \/ b.t = 1 THEN Miss ELSE IF a.t >= 4 \/ b.t >= 4 THEN AnyNum
  ELSE IF IsInf(a) /\ IsInf(b) THEN Miss
  ELSE IF IsInf(a) THEN (IF Sgn(b) = 0 THEN AnyNum ELSE InfOf(Sgn(a) * Sgn(b)))
  ELSE IF IsInf(b) THEN Fin(0)
  ELSE IF b.v = 0 THEN InfOf(Sgn(a))
  ELSE IF AbsI(a.v) < ArithBig /\ (2 * AbsI(a.v)) % AbsI(b.v) = 0 THEN Fin(Sgn(a) * Sgn(b) * ((2 * AbsI(a.v)) \div AbsI(b.v)))
  ELSE IF AbsI(a.v) < ArithBig /\ AbsI(b.v) < ArithBig THEN [t |-> 5, v |-> 0, n |-> a.v, d |-> b.v] ELSE AnyNum
IntDiv(a, b, int) ==
  IF a.t = 1 \/ b.t = 1 THEN Miss ELSE IF a.t >= 4 \/ b.t >= 4 \/ IsInf(a) \/ IsInf(b) THEN AnyNum
  ELSE IF b.v = 0 THEN (IF int THEN Miss ELSE InfOf(Sgn(a)))
  ELSE Fin(2 * FloorDiv(a.v, b.v))
Mod(a, b, int) ==
  IF a.t = 1 \/ b.t = 1 THEN Miss ELSE IF a.t >= 4 \/ b.t >= 4 \/ IsInf(a) \/ IsInf(b) THEN AnyNum
  ELSE IF b.v = 0 THEN Miss
  ELSE Fin(a.v - b.v * FloorDiv(a.v, b.v))
Pow(a, b) ==
  IF b = Fin(0) \/ a = Fin(2) THEN Fin(2)
  ELSE IF a.t = 1 \/ b.t = 1 THEN Miss
  ELSE IF b = Fin(2) THEN a
  ELSE IF b = Fin(4) THEN Mul(a, a) ELSE AnyNum
Truth(a) == IF a.t = 1 THEN 2 ELSE IF a.t = 0 /\ a.v = 0 THEN 0 ELSE 1
OfTruth(z) == IF z = 2 THEN Miss ELSE Fin(2 * z)
Conj(a, b) == IF a.t = 4 \/ b.t = 4 THEN AnyNum ELSE LET p == Truth(a) q == Truth(b) IN OfTruth(IF 0 \in {p, q} THEN 0 ELSE IF 2 \in {p, q} THEN 2 ELSE 1)
Disj(a, b) == IF a.t = 4 \/ b.t = 4 THEN AnyNum ELSE LET p == Truth(a) q == Truth(b) IN OfTruth(IF 1 \in {p, q} THEN 1 ELSE IF 2 \in {p, q} THEN 2 ELSE 0)
ArithCell(op, a, b, int) ==
  CASE op = "+" -> Add(a, b)
    [] op = "-" -> Add(a, Neg(b))
    [] op = "*" -> Mul(a, b)
    [] op = "/" -> Div(a, b)
    [] op = "%/%" -> IntDiv(a, b, int)
    [] op = "%%" -> Mod(a, b, int)
    [] op = "^" -> Pow(a, b)
    [] op = "&" -> Conj(a, b)
    [] op = "|" -> Disj(a, b)

(* a vector of numbers: how many columns, the kind of its cells and the numbers row by row *)
NumsOf(x) == LET L == Leaves(x.s) IN [k \in 1..Len(x.r) |-> [j \in 1..Len(L) |-> NumOf(x.s.st, x.r[k][j])]]
MapNum(m, F(_)) == [k \in 1..Len(m) |-> [j \in 1..Len(m[k]) |-> F(m[k][j])]]
RecNum(m, n) == IF Len(m) = n THEN m ELSE Const(n, m[1])
(* a cell against a row of one or of the same number of cells *)
ArithCells(op, p, q, int) == LET w == MaxI(Len(p), Len(q)) at(z, j) == IF Len(z) = 1 THEN z[1] ELSE z[j] IN [j \in 1..w |-> ArithCell(op, at(p, j), at(q, j), int)]
OpErr == Fail({"vctrs_error_incompatible_op"})
Unsupported == Fail({"vctrs_error_unsupported"})
SizeFail == Fail(SizeErr)
Res24(s, m) == [ok |-> 1, s |-> s, m |-> m]
(* base arithmetic on the recycled numbers *)
BaseArith(op, s, a, b, int) ==
  LET c == CommonSize(<<Len(a), Len(b)>>) IN
  IF c.ok = 0 THEN SizeFail
  ELSE LET p == RecNum(a, c.n) q == RecNum(b, c.n) IN Res24(s, [k \in 1..c.n |-> ArithCells(op, p[k], q[k], int)])

IsLgl(s) == s.k = "lgl" /\ s.c = ""
IsNumT(s) == s.k \in {"int", "dbl"} /\ s.c = ""
IsFct(s) == s.k \in {"fct", "ord"}
(* durations in seconds *)
InSecs(m, u) == LET F(a) == IF a.t # 0 THEN a ELSE IF AbsI(a.v) > 2000000000 \div UnitSecs(u) THEN AnyNum ELSE Fin(a.v * UnitSecs(u)) IN MapNum(m, F)
(* durations in days: whole numbers of days only; "fraction" otherwise *)
DaysOf(a, u) ==
  IF u = "days" THEN (IF a.t = 0 /\ a.v % 2 # 0 THEN [t |-> 6, v |-> 0] ELSE a)
  ELSE IF a.t # 0 THEN a
  ELSE IF AbsI(a.v) > 2000000000 \div UnitSecs(u) THEN AnyNum
  ELSE IF (a.v * UnitSecs(u)) % 172800 # 0 THEN [t |-> 6, v |-> 0] ELSE Fin(2 * ((a.v * UnitSecs(u)) \div 172800))
InDays(m, u) == LET F(a) == DaysOf(a, u) IN MapNum(m, F)
HasT(m, t) == \E k \in 1..Len(m) : \E j \in 1..Len(m[k]) : m[k][j].t = t
DayToSec(m) == InSecs(m, "days")

Instant(s) == BareDate(s) \/ BareDttm(s)
OwnShell(x) == IF x.s.k = "date" THEN DateShell ELSE IF x.s.k = "dttm" THEN DttmShell(x.s.p) ELSE IF x.s.k = "dur" THEN DurShell(x.s.p) ELSE BareShell(x.s.k)
(* instant plus or minus a duration *)
Shift(op, x, a, d, u) ==
  IF BareDate(x.s) THEN
    LET m == InDays(d, u) IN
    IF HasT(m, 6) THEN (IF HasT(m, 4) \/ CommonSize(<<Len(a), Len(d)>>).ok = 0 THEN Fail({"any"}) ELSE Fail({"vctrs_error_cast_lossy"}))
    ELSE IF HasT(m, 4) THEN Unmodelled
    ELSE BaseArith(op, DateShell, a, m, FALSE)
  ELSE BaseArith(op, OwnShell(x), a, InSecs(d, u), FALSE)
ArithOps == {"+", "-", "*", "/", "%/%", "%%", "^", "&", "|"}
IsDur(s) == BareDur(s)
WiderShape(x, y, k) == LET z == IF x.s.nd > 0 THEN x.s ELSE y.s IN [BareShell(k) EXCEPT !.nd = z.nd, !.d = z.d]
NumKind(op, x, y) == IF op \in {"&", "|"} THEN "lgl" ELSE IF "dbl" \in {x.s.k, y.s.k} \/ op \in {"/", "^"} THEN "dbl" ELSE "int"
VecArith(op, x, y) ==
  LET a == TLCEval(NumsOf(x)) b == TLCEval(NumsOf(y))
      basic(u) == (IsLgl(u) \/ IsNumT(u)) IN
  CASE IsFct(x.s) -> Unsupported
    [] basic(x.s) /\ basic(y.s) ->
         IF x.s.nd > 0 /\ y.s.nd > 0 /\ x.s.d # y.s.d THEN (IF SizeCommon(<<x, y>>).ok = 0 THEN SizeFail ELSE Fail({"any"}))
         ELSE IF (x.s.nd > 0 /\ y.s.nd = 0 /\ Size(x) < Size(y)) \/ (y.s.nd > 0 /\ x.s.nd = 0 /\ Size(y) < Size(x)) \/ (MaxI(x.s.nd, y.s.nd) > 0 /\ MinI(Size(x), Size(y)) = 0) THEN Unmodelled
         ELSE BaseArith(op, WiderShape(x, y, NumKind(op, x, y)), a, b, NumKind(op, x, y) = "int")
    [] x.s.nd > 0 \/ y.s.nd > 0 -> Unmodelled
    [] Instant(x.s) /\ Instant(y.s) ->
         IF op # "-" THEN OpErr
         ELSE IF BareDate(x.s) /\ BareDate(y.s) THEN BaseArith("-", DurShell("days"), a, b, FALSE)
         ELSE BaseArith("-", DurShell("secs"), IF BareDate(x.s) THEN DayToSec(a) ELSE a, IF BareDate(y.s) THEN DayToSec(b) ELSE b, FALSE)
    [] Instant(x.s) /\ IsNumT(y.s) -> IF op \in {"+", "-"} THEN BaseArith(op, OwnShell(x), a, b, FALSE) ELSE OpErr
    [] IsNumT(x.s) /\ Instant(y.s) -> IF op = "+" THEN BaseArith(op, OwnShell(y), a, b, FALSE) ELSE OpErr
    [] Instant(x.s) /\ IsDur(y.s) -> IF op \in {"+", "-"} THEN Shift(op, x, a, b, y.s.p) ELSE OpErr
    [] IsDur(x.s) /\ Instant(y.s) -> IF op = "+" THEN Shift(op, y, b, a, x.s.p) ELSE OpErr
    [] IsDur(x.s) /\ IsDur(y.s) ->
         LET u == IF x.s.p = y.s.p THEN x.s.p ELSE "secs"
             p == IF u = x.s.p THEN a ELSE InSecs(a, x.s.p) q == IF u = y.s.p THEN b ELSE InSecs(b, y.s.p) IN
         CASE op \in {"+", "-"} -> BaseArith(op, DurShell(u), p, q, FALSE)
           [] op \in {"/", "%/%", "%%"} -> BaseArith(op, BareShell("dbl"), p, q, FALSE)
           [] OTHER -> OpErr
    [] IsDur(x.s) /\ IsNumT(y.s) -> IF op = "^" THEN Unmodelled ELSE IF op \in {"&", "|"} THEN OpErr ELSE BaseArith(op, OwnShell(x), a, b, x.s.st = "int" /\ y.s.k = "int")
    [] IsNumT(x.s) /\ IsDur(y.s) -> IF op = "^" THEN Unmodelled ELSE IF op \in {"&", "|", "/"} THEN OpErr ELSE BaseArith(op, OwnShell(y), a, b, y.s.st = "int" /\ x.s.k = "int")
    [] OTHER -> OpErr
Unary(op, x) ==
  CASE IsFct(x.s) -> Unsupported
    [] IsDur(x.s) /\ op \in {"+", "-"} -> LET F(a) == IF op = "-" THEN Neg(a) ELSE a IN Res24(OwnShell(x), MapNum(NumsOf(x), F))
    [] OTHER -> OpErr
(* integer storage of dates, times and durations is not visible *)
NumsAgree(out, r) ==
  LET o == TLCEval(DblStore(out)) IN
  /\ TypeShell(o.s) = TypeShell(r.s)
  /\ Len(o.r) = Len(r.m)
  /\ \A k \in 1..Len(o.r) : Len(o.r[k]) = Len(r.m[k]) /\ \A j \in 1..Len(o.r[k]) : IsNum(o.s.st, o.r[k][j], r.m[k][j])
(* a division of whole numbers stored as integers may also give a double *)
NumRes(ev, r) ==
  IF r.ok = 2 THEN [all |-> ev.mut = 0] ELSE IF r.ok = 0 THEN r
  ELSE [ok |-> 1, pred |-> ev.ok = 1 /\ NumsAgree(ev.out, r), exp |-> r]

(* ---------------- math and summaries ---------------- *)
Fold(a, F(_, _), z) == FoldLeft(F, z, a)
Keep(a, narm) == IF narm = 1 THEN SelectSeq(a, LAMBDA q : q.t # 1) ELSE a
Cum(a, F(_, _), z) == [k \in 1..Len(a) |-> Fold(SubSeq(a, 1, k), F, z)]
LgE(b) == Fin(IF b THEN 2 ELSE 0)
Less(a, b) == (* neither missing *) IF a.t = 3 THEN b.t # 3 ELSE IF b.t = 2 THEN a.t # 2 ELSE IF a.t = 2 \/ b.t = 3 THEN FALSE ELSE a.v < b.v
NumMin(a, b) == IF a.t = 1 \/ b.t = 1 THEN Miss ELSE IF a.t = 4 \/ b.t = 4 THEN AnyNum ELSE IF Less(b, a) THEN b ELSE a
NumMax(a, b) == IF a.t = 1 \/ b.t = 1 THEN Miss ELSE IF a.t = 4 \/ b.t = 4 THEN AnyNum ELSE IF Less(a, b) THEN b ELSE a
Round(fn, a) == IF a.t # 0 THEN a ELSE
  CASE fn = "floor" -> Fin(2 * (a.v \div 2))
    [] fn = "ceiling" -> Fin(0 - 2 * ((0 - a.v) \div 2))
    [] fn = "trunc" -> Fin(IF a.v < 0 THEN 0 - 2 * ((0 - a.v) \div 2) ELSE 2 * (a.v \div 2))
Elementwise(fn, a) ==
  CASE fn \in {"floor", "ceiling", "trunc"} -> Round(fn, a)
    [] fn = "abs" -> IF a.t = 0 THEN Fin(AbsI(a.v)) ELSE IF a.t = 3 THEN PosInf ELSE a
    [] fn = "sign" -> IF a.t \in {1, 4} THEN a ELSE Fin(2 * Sgn(a))
    [] fn = "sqrt" -> IF a.t # 0 THEN (IF a.t = 3 THEN Miss ELSE a) ELSE IF a.v < 0 THEN Miss ELSE IF a.v \in {0, 2} THEN a ELSE IF a.v = 8 THEN Fin(4) ELSE AnyNum
    [] fn = "exp" -> IF a.t = 0 THEN (IF a.v = 0 THEN Fin(2) ELSE AnyNum) ELSE IF a.t = 3 THEN Fin(0) ELSE a
Predicate(fn, a, na) == (* na: the element is exactly NaN *)
  CASE fn = "is.finite" -> LgE(a.t \in {0, 4})
    [] fn = "is.infinite" -> LgE(IsInf(a))
    [] fn = "is.nan" -> LgE(na)
Predicates == {"is.finite", "is.infinite", "is.nan"}
ElementFns == {"floor", "ceiling", "trunc", "abs", "sign", "sqrt", "exp"}
CumFns == {"cumsum", "cumprod", "cummin", "cummax"}
SumFns == {"sum", "prod", "mean"}
LglFns == {"any", "all"}
MathFns == Predicates \cup ElementFns \cup CumFns \cup SumFns \cup LglFns
ArithOne(q) == <<<<q>>>>
Col1(m) == [k \in 1..Len(m) |-> <<m[k]>>]
SumN(a) == Fold(a, Add, Fin(0))
Summary(fn, a) ==
  CASE fn = "sum" -> SumN(a)
    [] fn = "prod" -> Fold(a, Mul, Fin(2))
    [] fn = "mean" -> IF Len(a) = 0 THEN Miss ELSE Div(SumN(a), Fin(2 * Len(a)))
    [] fn = "any" -> Fold(a, Disj, Fin(0))
    [] fn = "all" -> Fold(a, Conj, Fin(2))
(* math on doubles (of any class without its own method), and any() and all() on logicals *)
VecMath(fn, x, narm) ==
  CASE IsFct(x.s) \/ x.s.k \in {"date", "dttm", "rcrd", "lt"} -> Unsupported
    [] ~(x.s.st = "dbl" \/ (x.s.st = "lgl" /\ fn \in LglFns)) -> Fail({"vctrs_error_unimplemented"})
    [] x.s.nd > 0 \/ x.s.k = "i64" -> Unmodelled
    [] OTHER ->
         LET a == TLCEval([k \in 1..Len(x.r) |-> NumOf(x.s.st, x.r[k][1])]) IN
         CASE fn \in Predicates -> Res24(LglShell, [k \in 1..Len(a) |-> <<Predicate(fn, a[k], IsNaN("dbl", x.r[k][1]))>>])
           [] fn \in ElementFns -> Res24(x.s, [k \in 1..Len(a) |-> <<Elementwise(fn, a[k])>>])
           [] fn = "cumsum" -> Res24(x.s, Col1(Cum(a, Add, Fin(0))))
           [] fn = "cumprod" -> Res24(x.s, Col1(Cum(a, Mul, Fin(2))))
           [] fn = "cummin" -> Res24(x.s, Col1(Cum(a, NumMin, PosInf)))
           [] fn = "cummax" -> Res24(x.s, Col1(Cum(a, NumMax, NegInf)))
           [] fn \in SumFns -> Res24(x.s, ArithOne(Summary(fn, Keep(a, narm))))
           [] fn \in LglFns -> Res24(LglShell, ArithOne(Summary(fn, Keep(a, narm))))
(* smallest and largest rows of vctrs classes: missing rows win unless removed, the first of equal rows is returned *)
Smallest(v, narm, dec) ==
  LET KL == TLCEval(KeyLeaves(v.s)) K == TLCEval(Keys(v)) n == Len(K)
      inc(k) == RowIncomplete(KL, K[k])
      cand == Which(n, LAMBDA k : ~inc(k)) missing == Which(n, LAMBDA k : inc(k))
      better(i, k) == LET c == RowCompare(KL, K[i], K[k], 1) IN IF dec THEN c > 0 ELSE c < 0 IN
  IF narm = 0 /\ missing # <<>> THEN missing[1]
  ELSE IF cand = <<>> THEN 0
  ELSE FoldLeft(LAMBDA best, i : IF better(i, best) THEN i ELSE best, cand[1], Tail(cand))
(* which of several missing values is returned is not determined *)
SameValues(s, a, b) == LET L == KeyLeaves(s) IN Len(a) = Len(b) /\ \A k \in 1..Len(a) : \A j \in 1..Len(L) : a[k][j] = b[k][j] \/ (IsMiss(L[j], a[k][j]) /\ IsMiss(L[j], b[k][j]))
Extremes == {"min", "max", "range"}
ExpExtreme(ev) ==
  LET v == ev.v.x narm == ev.p.na_rm
      lo == Smallest(v, narm, FALSE) hi == Smallest(v, narm, TRUE)
      want == CASE ev.op = "min" -> <<lo>> [] ev.op = "max" -> <<hi>> [] OTHER -> <<lo, hi>>
      none == IF v.s.k = "rcrd" THEN [k \in 1..Len(want) |-> MissRow(v.s)]
              ELSE [k \in 1..Len(want) |-> <<InfE(IF ev.op = "max" \/ k = 2 THEN -1 ELSE 1)>>]
      rows == IF lo = 0 THEN none ELSE [k \in 1..Len(want) |-> v.r[want[k]]] IN
  [ok |-> 1, exp |-> rows, pred |-> ev.ok = 1 /\ TypeShell(ev.out.s) = TypeShell(v.s) /\ SameValues(v.s, Values(ev.out).r, Values(Vec(v.s, rows, 0, <<>>)).r)]

ArithNames == {"vec_arith", "vec_arith_unary", "operator", "vec_math", "math_group"} \cup Extremes
ExpArith(ev) ==
  CASE ev.op \in {"vec_arith", "operator"} -> NumRes(ev, VecArith(ev.p.f, ev.v.x, ev.v.y))
    [] ev.op = "vec_arith_unary" -> NumRes(ev, Unary(ev.p.f, ev.v.x))
    [] ev.op \in {"vec_math", "math_group"} -> NumRes(ev, VecMath(ev.p.f, ev.v.x, ev.p.na_rm))
    [] ev.op \in Extremes -> ExpExtreme(ev)
=============================================================================
