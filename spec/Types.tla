-------------------------------- MODULE Types --------------------------------
(* C06, C07: common types and casts. A type is the shell of a size-0 vector. Names are not part of a type. *)
EXTENDS Slicing

Incompat == [ok |-> 0, err |-> {"vctrs_error_incompatible_type"}, no |-> {"vctrs_error_cast_lossy"}]
Lossy(locs) == [ok |-> 0, err |-> {"vctrs_error_cast_lossy"}, lossy |-> locs]
LossyAny == [ok |-> 0, err |-> {"vctrs_error_cast_lossy"}]
ScalarFail == Fail(ScalarErr)

UnsShell == [BareShell("lgl") EXCEPT !.k = "s3", !.c = "vctrs_unspecified"]
LglShell == BareShell("lgl")
IsUns(s) == s.c = "vctrs_unspecified"
IsUnspec(v) ==
  IsUns(v.s) \/ (v.s.k = "lgl" /\ v.s.c = "" /\ v.s.nd = 0 /\ Len(v.r) > 0 /\ \A k \in 1..Len(v.r) : v.r[k][1] = <<>>)

Native == {"lgl", "int", "dbl", "cpl", "chr", "raw", "list"}
IsBare(s) == s.k \in Native /\ s.c = ""
BareDfC == {"data.frame", "tbl_df/tbl/data.frame"}
IsTibC(c) == c = "tbl_df/tbl/data.frame" \/ c \in {"grouped_df/tbl_df/tbl/data.frame"}
NumRank(k) == CASE k = "lgl" -> 1 [] k = "int" -> 2 [] k = "dbl" -> 3 [] k = "cpl" -> 4 [] OTHER -> 0
Shaped(k, dims) == IF dims = 0 THEN BareShell(k) ELSE BareShell(k)

(* forget names: the flags of named columns, dimnames, and the attributes of bare vectors (not a type) *)
RECURSIVE TypeShell(_)
TypeShell(s) ==
  CASE s.k \in {"df", "rcrd"} -> [s EXCEPT !.x = Const(Len(s.x), 0), !.h = [j \in 1..Len(s.h) |-> TypeShell(s.h[j])]]
    [] IsBare(s) \/ s.c = "AsIs" -> [s EXCEPT !.a = ""]
    [] s.k = "lof" -> [s EXCEPT !.h = <<TypeShell(s.h[1])>>]
    [] s.k = "dttm" -> [s EXCEPT !.p = IF s.p = "NULL" THEN "" ELSE s.p, !.st = "dbl"]
    [] s.k \in {"date", "dur"} -> [s EXCEPT !.st = "dbl"]
    [] OTHER -> s
RelaxElem(l, e) ==
  CASE l = "cpl" /\ IsMiss("cpl", e) -> MissElem("cpl")
    [] OTHER -> NormElem(l, e)
(* durations and dates may be stored as integers *)
DblStore(v) == IF v.s.k \in {"dur", "date", "dttm"} /\ v.s.st = "int"
               THEN [v EXCEPT !.s.st = "dbl", !.r = [k \in 1..Len(v.r) |-> <<IntElemToDbl(v.r[k][1])>>]] ELSE v
(* the vector without any names *)
Values(v0) ==
  LET v == TLCEval(DblStore(v0)) IN
  LET L == TLCEval(Leaves(v.s)) J == TLCEval(ValLeaves(v.s)) IN
  [s |-> TypeShell(v.s), r |-> [k \in 1..Len(v.r) |-> [j \in 1..Len(J) |-> RelaxElem(L[J[j]], v.r[k][J[j]])]]]

RECURSIVE AllShells(_)
AllShells(s) == {s} \cup UNION {AllShells(s.h[j]) : j \in 1..Len(s.h)}
(* shells this module models *)
Modelled(v) == \A q \in AllShells(v.s) : q.k # "lt"

(* ---- ptype of a vector ---- *)
RECURSIVE ColShells(_, _, _)
ColUnspec(v, off, s) ==
  IsUns(s) \/ (s.k = "lgl" /\ s.c = "" /\ s.nd = 0 /\ Len(v.r) > 0 /\ \A k \in 1..Len(v.r) : v.r[k][off] = <<>>)
NLeaves(s, x) == Len(Leaves(s)) + x
ColShells(v, s, off) == \* shells of the columns of a (nested) data frame starting at leaf `off`
  LET n == Len(s.h)
      offs == [j \in 1..n |-> off + SumSeq([q \in 1..(j-1) |-> NLeaves(s.h[q], s.x[q])])]
  IN [j \in 1..n |->
        IF s.h[j].k = "df" THEN [s.h[j] EXCEPT !.h = ColShells(v, s.h[j], offs[j])]
        ELSE IF ColUnspec(v, offs[j], s.h[j]) THEN UnsShell
        ELSE s.h[j]]
PtypeS(v) ==
  CASE v.s.k = "null" -> v.s
    [] IsUnspec(v) -> UnsShell
    [] v.s.k = "df" -> TypeShell([v.s EXCEPT !.h = ColShells(v, v.s, 1)])
    [] OTHER -> TypeShell(v.s)

OkS(s) == [ok |-> 1, s |-> s]
(* ---- common type of two types ---- *)
ShapeOf(s) == IF s.nd = 0 THEN <<>> ELSE s.d
Shape2(s, t) ==
  LET a == s.d b == t.d n == MaxI(Len(a), Len(b))
      at(q, k) == IF k <= Len(q) THEN q[k] ELSE 1
      bad == \E k \in 1..MinI(Len(a), Len(b)) : a[k] # b[k] /\ a[k] # 1 /\ b[k] # 1
      dim2(k) == IF k > Len(a) THEN b[k] ELSE IF k > Len(b) THEN a[k] ELSE IF a[k] = 1 THEN b[k] ELSE a[k]
  IN IF s.nd = 0 THEN [ok |-> 1, nd |-> t.nd, d |-> t.d]
     ELSE IF t.nd = 0 THEN [ok |-> 1, nd |-> s.nd, d |-> s.d]
     ELSE IF bad THEN Incompat
     ELSE [ok |-> 1, nd |-> MaxI(s.nd, t.nd), d |-> [k \in 1..n |-> dim2(k)]]
WithShape(k, s, t) ==
  LET sh == Shape2(s, t) IN IF sh.ok = 0 THEN sh ELSE OkS([BareShell(k) EXCEPT !.nd = sh.nd, !.d = sh.d])

AsisC(s) == Len(s.c) >= 4 /\ SubSeq(s.c, 1, 4) = "AsIs"
IsAsis(s) == AsisC(s)
StripAsis(s) == IF s.c = "AsIs" THEN [s EXCEPT !.c = "", !.k = s.st] ELSE [s EXCEPT !.c = SubSeq(s.c, 6, Len(s.c))]
AddAsis(s) == IF s.c = "" THEN [s EXCEPT !.c = "AsIs", !.k = "s3"] ELSE [s EXCEPT !.c = "AsIs/" \o s.c]

UnionSeq(a, b) == a \o SelectSeq(b, LAMBDA e : \A k \in 1..Len(a) : a[k] # e)
Units == {"secs", "mins", "hours", "days", "weeks"}
UnitSecs(u) == CASE u = "secs" -> 1 [] u = "mins" -> 60 [] u = "hours" -> 3600 [] u = "days" -> 86400 [] OTHER -> 604800
DttmShell(tz) == [BareShell("dbl") EXCEPT !.k = "dttm", !.c = "POSIXct/POSIXt", !.p = tz]
DateShell == [BareShell("dbl") EXCEPT !.k = "date", !.c = "Date"]
DurShell(u) == [BareShell("dbl") EXCEPT !.k = "dur", !.c = "difftime", !.p = u]
I64Shell == [BareShell("dbl") EXCEPT !.k = "i64", !.c = "integer64"]
OrdShell(l) == [BareShell("int") EXCEPT !.k = "ord", !.c = "ordered/factor", !.l = l]
FctShell1(l) == [BareShell("int") EXCEPT !.k = "fct", !.c = "factor", !.l = l]
LofShell(p) == [BareShell("list") EXCEPT !.k = "lof", !.c = "vctrs_list_of/vctrs_vctr/list", !.h = <<p>>]
ListShell == BareShell("list")
BareFct(s) == s.k = "fct" /\ s.c = "factor"
BareOrd(s) == s.k = "ord" /\ s.c = "ordered/factor"
BareDate(s) == s.k = "date" /\ s.c = "Date"
BareDttm(s) == s.k = "dttm" /\ s.c = "POSIXct/POSIXt"
BareDur(s) == s.k = "dur" /\ s.c = "difftime"
BareLof(s) == s.k = "lof" /\ s.c = "vctrs_list_of/vctrs_vctr/list"
I64able(s) == IsBare(s) /\ s.k \in {"lgl", "int"}

DfMake(names, shells, tib) ==
  [BareShell("list") EXCEPT !.k = "df", !.c = IF tib THEN "tbl_df/tbl/data.frame" ELSE "data.frame",
                            !.l = names, !.h = shells, !.x = Const(Len(names), 0)]
FirstFail(rs) == LET K == {k \in 1..Len(rs) : rs[k].ok # 1} IN IF K = {} THEN [ok |-> 1] ELSE rs[CHOOSE k \in K : \A j \in K : k <= j]
PosOf(ns, nm) == LET K == {k \in 1..Len(ns) : ns[k] = nm} IN IF K = {} THEN 0 ELSE CHOOSE k \in K : \A j \in K : k <= j

RECURSIVE Ptype2S(_, _)
DfPtype2(s, t, tib) ==
  LET extra == TLCEval(SelectSeq(Iota(Len(t.l)), LAMBDA j : PosOf(s.l, t.l[j]) = 0))
      both == TLCEval([k \in 1..Len(s.l) |-> LET j == PosOf(t.l, s.l[k]) IN IF j = 0 THEN OkS(s.h[k]) ELSE Ptype2S(s.h[k], t.h[j])])
      f == FirstFail(both)
  IN IF f.ok # 1 THEN f
     ELSE OkS(DfMake(s.l \o [k \in 1..Len(extra) |-> t.l[extra[k]]],
                     [k \in 1..Len(both) |-> both[k].s] \o [k \in 1..Len(extra) |-> t.h[extra[k]]], tib))
Ptype2S(s, t) ==
  CASE s.k = "scalar" \/ t.k = "scalar" -> ScalarFail
    [] s.k = "null" -> OkS(t)
    [] t.k = "null" -> OkS(s)
    [] IsUns(s) -> OkS(t)
    [] IsUns(t) -> OkS(s)
    [] IsAsis(s) \/ IsAsis(t) ->
         LET r == Ptype2S(IF IsAsis(s) THEN StripAsis(s) ELSE s, IF IsAsis(t) THEN StripAsis(t) ELSE t)
         IN IF r.ok # 1 THEN r ELSE OkS(AddAsis(r.s))
    [] s.k = "df" /\ t.k = "df" ->
         IF s.c \in BareDfC /\ t.c \in BareDfC THEN DfPtype2(s, t, IsTibC(s.c) \/ IsTibC(t.c))
         ELSE LET r == DfPtype2(s, t, IsTibC(s.c) \/ IsTibC(t.c)) IN
              IF r.ok = 1 /\ s.c = t.c /\ s.a = t.a THEN OkS([r.s EXCEPT !.c = s.c, !.a = s.a]) ELSE r
    [] IsBare(s) /\ IsBare(t) ->
         IF NumRank(s.k) > 0 /\ NumRank(t.k) > 0 THEN
           (IF {s.k, t.k} = {"lgl", "cpl"} THEN Incompat ELSE WithShape(IF NumRank(s.k) >= NumRank(t.k) THEN s.k ELSE t.k, s, t))
         ELSE IF s.k = t.k THEN WithShape(s.k, s, t) ELSE Incompat
    [] s.k = "chr" /\ IsBare(s) /\ (BareFct(t) \/ BareOrd(t)) -> WithShape("chr", s, t)
    [] t.k = "chr" /\ IsBare(t) /\ (BareFct(s) \/ BareOrd(s)) -> WithShape("chr", s, t)
    [] BareFct(s) /\ BareFct(t) -> OkS(FctShell1(UnionSeq(s.l, t.l)))
    [] BareOrd(s) /\ BareOrd(t) -> IF s.l = t.l THEN OkS(OrdShell(s.l)) ELSE Incompat
    [] BareDate(s) /\ BareDate(t) -> OkS(DateShell)
    [] BareDate(s) /\ BareDttm(t) -> OkS(DttmShell(t.p))
    [] BareDttm(s) /\ BareDate(t) -> OkS(DttmShell(s.p))
    [] BareDttm(s) /\ BareDttm(t) -> OkS(DttmShell(IF s.p = "" THEN t.p ELSE s.p))
    [] BareDur(s) /\ BareDur(t) -> OkS(DurShell(IF s.p = t.p THEN s.p ELSE "secs"))
    [] (s.k = "i64" /\ (I64able(t) \/ t.k = "i64")) \/ (t.k = "i64" /\ I64able(s)) ->
         LET sh == Shape2(s, t) IN IF sh.ok = 0 THEN sh ELSE OkS([I64Shell EXCEPT !.nd = sh.nd, !.d = sh.d])
    [] BareLof(s) /\ BareLof(t) ->
         IF s.h = t.h THEN OkS(s)
         ELSE LET r == Ptype2S(s.h[1], t.h[1]) IN OkS(IF r.ok = 1 THEN LofShell(r.s) ELSE ListShell)
    [] (BareLof(s) /\ t.k = "list" /\ t.c = "") \/ (BareLof(t) /\ s.k = "list" /\ s.c = "") -> WithShape("list", s, t)
    [] s = t -> OkS(s)
    [] OTHER -> Incompat

Ptype2(x, y) ==
  IF x.s.k = "scalar" \/ y.s.k = "scalar" THEN ScalarFail
  ELSE Ptype2S(PtypeS(x), PtypeS(y))

RECURSIVE FinaliseS(_)
FinaliseS(s) ==
  IF IsUns(s) THEN LglShell
  ELSE IF s.k = "df" THEN [s EXCEPT !.h = [j \in 1..Len(s.h) |-> FinaliseS(s.h[j])]]
  ELSE s
NullS == NullVec.s
(* ptype: NullVec when not supplied *)
FoldPtypes(ss) == FoldLeft(LAMBDA acc, s : IF acc.ok # 1 THEN acc ELSE Ptype2S(acc.s, s), OkS(NullS), ss)
PtypeCommon(xs, ptype) ==
  IF \E k \in 1..Len(xs) : xs[k].s.k = "scalar" THEN ScalarFail
  ELSE IF ptype.s.k # "null" THEN OkS(PtypeS(ptype))
  ELSE LET r == FoldPtypes([k \in 1..Len(xs) |-> PtypeS(xs[k])]) IN
       IF r.ok # 1 THEN r ELSE OkS(FinaliseS(r.s))

(* ---- casts ---- *)
Zero3 == <<0, 0, 0>>
IntToI64(v) == LET m == AbsI(v) sg == IF v < 0 THEN -1 ELSE 1 IN <<0, sg * (m \div 2097152), sg * (m % 2097152)>>
I64ToInt(e) == e[2] * 2097152 + e[3]
DblToCpl(e) == IF e = <<>> THEN <<2, 0, 0, 0, 0, 2, 0, 0, 0, 0>>
               ELSE IF e = <<0>> THEN <<0, 0, 0, 0, 0, 1, 0, 0, 0, 0>>
               ELSE <<1>> \o NormElem("dbl", e) \o <<1, 0, 0, 0, 0>>
Ind(c, t, f) == IF c THEN t ELSE f
(* an element cast: [ok, e]; ok = 0 when it cannot be represented, 2 when the model does not say *)
OkE(e) == [ok |-> 1, e |-> e]
NoE == [ok |-> 0]
AnyE == [ok |-> 2]
NumAsElem(from, to, e) ==
  CASE e = <<>> /\ from = "dbl" /\ to = "cpl" -> OkE(<<2, 0, 0, 0, 0, 1, 0, 0, 0, 0>>)
    [] e = <<>> /\ ~(from = "dbl" /\ to = "cpl") -> OkE(MissElem(to))
    [] from = to -> OkE(e)
    [] from = "lgl" /\ to = "int" -> OkE(e)
    [] from \in {"lgl", "int"} /\ to = "dbl" -> OkE(IntToDbl(e[1]))
    [] from \in {"lgl", "int"} /\ to = "cpl" -> OkE(DblToCpl(IntToDbl(e[1])))
    [] from \in {"lgl", "int"} /\ to = "i64" -> OkE(IntToI64(e[1]))
    [] from = "int" /\ to = "lgl" -> IF e[1] \in {0, 1} THEN OkE(e) ELSE NoE
    [] from = "dbl" /\ to = "cpl" /\ e # <<>> -> OkE(DblToCpl(e))
    [] from = "dbl" /\ to \in {"int", "lgl", "i64"} /\ e = <<0>> -> OkE(<<>>)
    [] from = "dbl" /\ to = "int" -> IF DblIsInt(e) THEN OkE(<<DblToInt(e)>>) ELSE NoE
    [] from = "dbl" /\ to = "lgl" -> IF DblIsInt(e) /\ DblToInt(e) \in {0, 1} THEN OkE(<<DblToInt(e)>>) ELSE NoE
    [] from = "dbl" /\ to = "i64" ->
         IF DblIsInt(e) THEN OkE(IntToI64(DblToInt(e)))
         ELSE IF Len(e) >= 4 /\ AbsI(e[1]) < 1073741824 /\ (e[3] # 0 \/ e[4] # 0 \/ Len(e) = 7) THEN NoE
         ELSE IF Len(e) >= 4 /\ AbsI(e[1]) = 2147483647 THEN NoE
         ELSE IF Len(e) >= 4 /\ AbsI(e[1]) >= 1073741825 + 65 THEN NoE
         ELSE AnyE
    [] from = "i64" /\ to = "i64" -> OkE(e)
    [] from = "i64" /\ to = "int" -> IF e[1] = 0 /\ AbsI(e[2]) <= 1023 THEN OkE(<<I64ToInt(e)>>) ELSE NoE
    [] from = "i64" /\ to = "lgl" -> IF e \in {<<0, 0, 0>>, <<0, 0, 1>>} THEN OkE(<<e[3]>>) ELSE AnyE
    [] from = "i64" /\ to = "dbl" ->
         IF e[1] = 0 /\ AbsI(e[2]) <= 1023 THEN OkE(IntToDbl(I64ToInt(e)))
         ELSE IF AbsI(e[1]) >= 2048 /\ e[3] % 2 # 0 THEN NoE
         ELSE AnyE
    [] OTHER -> AnyE

(* list elements: flattened bare integer and double vectors can be cast *)
RECURSIVE FlatInts(_, _, _)
FlatInts(e, k, acc) == \* parses n integers from position k
  IF k > Len(e) - 1 THEN acc
  ELSE IF e[k] = 0 THEN FlatInts(e, k + 1, acc \o <<0>>) ELSE FlatInts(e, k + 2, acc \o <<2>> \o IntToDbl(e[k + 1]))
FlatEmpty == [int |-> <<14, 0, 0>>, dbl |-> <<15, 0, 0>>, chr |-> <<17, 0, 0>>]
HasSub(e, q) == \E k \in 1..(Len(e) - Len(q) + 1) : SubSeq(e, k, k + Len(q) - 1) = q
(* elements with a class or dimensions are not modelled *)
FlatPlain(e) == ~HasSub(e, <<5, 99, 108, 97, 115, 115>>) /\ ~HasSub(e, <<3, 100, 105, 109>>) /\ Len(e) > 1 /\ e[Len(e)] = 0 \* no attributes on the outer object (checked by the callers' domains)
ListElemCast(e, p) ==
  IF e = <<>> THEN OkE(e)
  ELSE IF ~IsBare(p) \/ p.nd # 0 \/ ~FlatPlain(e) THEN AnyE
  ELSE CASE p.k = "int" /\ e[1] = 14 -> OkE(e)
         [] p.k = "dbl" /\ e[1] = 15 -> OkE(e)
         [] p.k = "chr" /\ e[1] = 17 -> OkE(e)
         [] p.k = "dbl" /\ e[1] = 14 -> OkE(<<15, e[2]>> \o FlatInts(e, 3, <<>>) \o <<0>>)
         [] p.k = "chr" /\ e[1] \in {14, 15} -> [ok |-> 3]
         [] p.k \in {"int", "dbl"} /\ e[1] \in {17, 20} -> [ok |-> 3]
         [] OTHER -> AnyE

(* seconds in units of 1/1024, for values below 2^20 *)
Milli(e) == (e[1] * 4194304 + e[2]) * 1024 + (e[3] \div 1048576)
SmallDbl(e) == Len(e) >= 4 /\ e[1] = 0 /\ AbsI(e[2]) < 1048576
(* fixed-offset time zones, in seconds *)
TzOffset(tz) == CASE tz \in {"", "UTC", "GMT"} -> 0 [] tz = "Etc/GMT+5" -> -18000 [] tz = "Etc/GMT-2" -> 7200 [] OTHER -> NA
WholeDbl(e) == Len(e) >= 4 /\ e[3] = 0 /\ e[4] = 0 /\ Len(e) # 7
DayElem(e, tz) == \* Date element to seconds
  IF IsMiss("dbl", e) THEN OkE(<<>>)
  ELSE IF TzOffset(tz) = NA \/ ~DblIsInt(e) \/ AbsI(DblToInt(e)) > 20000 THEN AnyE
  ELSE OkE(IntToDbl(DblToInt(e) * 86400 - TzOffset(tz)))
SecElem(e, tz) == \* date-time element to days
  IF IsMiss("dbl", e) THEN OkE(<<>>)
  ELSE IF TzOffset(tz) = NA \/ AbsI(e[1]) > 400 THEN AnyE
  ELSE IF ~DblIsInt(e) THEN NoE
  ELSE LET t == DblToInt(e) + TzOffset(tz) IN IF t % 86400 = 0 THEN OkE(IntToDbl(t \div 86400)) ELSE NoE

(* results: [ok, v] | failure | [ok |-> 2] not modelled *)
Unmodelled == [ok |-> 2]
LocsOf(es) == Which(Len(es), LAMBDA k : es[k].ok = 0)
ByElem(x, s, F(_)) ==
  LET es == TLCEval([k \in 1..Len(x.r) |-> F(x.r[k][1])]) IN
  IF \E k \in 1..Len(es) : es[k].ok = 2 THEN Unmodelled
  ELSE IF \E k \in 1..Len(es) : es[k].ok = 3 THEN Incompat
  ELSE IF \E k \in 1..Len(es) : es[k].ok = 0 THEN Lossy(LocsOf(es))
  ELSE Ok(Vec(s, [k \in 1..Len(es) |-> <<es[k].e>>], 0, <<>>))
(* native casts with shape: cells are cast, then missing dimensions of size 1 repeated *)
CellIx(d, fd) == \* for the cells of shape d (first index fastest) the cell of shape fd it comes from
  LET n == Prod(d)
      at(k) == IF k <= Len(fd) THEN fd[k] ELSE 1
      RECURSIVE ix(_, _, _, _)
      ix(c, k, stride, acc) == IF k > Len(d) THEN acc
        ELSE ix(c \div d[k], k + 1, stride * at(k), acc + (IF at(k) = 1 THEN 0 ELSE (c % d[k]) * stride))
  IN [c \in 1..n |-> 1 + ix(c - 1, 1, 1, 0)]
BadShape(a, s) == (a.nd > s.nd /\ ~(a.nd <= 1 /\ s.nd = 0)) \/ \E k \in 1..Len(a.d) : k <= Len(s.d) /\ a.d[k] # s.d[k] /\ a.d[k] # 1
(* the cells of x cast by F to the shaped type s; a result of the wrong shape fails before values do *)
CellCast(x, s, F(_)) ==
  LET cells == Prod(x.s.d)
      es == TLCEval([k \in 1..Len(x.r) |-> [c \in 1..cells |-> F(x.r[k][c])]])
      st == {es[k][c].ok : k \in 1..Len(x.r), c \in 1..cells}
      map == TLCEval(CellIx(s.d, x.s.d))
  IN IF BadShape(x.s, s) THEN Incompat
     ELSE IF 2 \in st THEN Unmodelled ELSE IF 3 \in st THEN Incompat
     ELSE IF 0 \in st THEN (IF x.s.nd > 0 THEN LossyAny ELSE Lossy(Which(Len(x.r), LAMBDA k : es[k][1].ok = 0)))
     ELSE Ok(Vec(s, [k \in 1..Len(x.r) |-> [c \in 1..Len(map) |-> es[k][map[c]].e]], 0, <<>>))
NativeCast(x, s) ==
  LET cells == Prod(x.s.d)
      num == NumRank(x.s.k) > 0 /\ NumRank(s.k) > 0
      bad == ~((num /\ ~(x.s.k = "cpl" /\ s.k # "cpl")) \/ x.s.k = s.k)
      badshape == (x.s.nd > s.nd /\ ~(x.s.nd <= 1 /\ s.nd = 0))
                  \/ \E k \in 1..Len(x.s.d) : k <= Len(s.d) /\ x.s.d[k] # s.d[k] /\ x.s.d[k] # 1
      es == TLCEval([k \in 1..Len(x.r) |-> [c \in 1..cells |-> NumAsElem(x.s.k, s.k, x.r[k][c])]])
      bads == {<<k, c>> \in (1..Len(x.r)) \X (1..cells) : es[k][c].ok = 0}
      map == TLCEval(CellIx(s.d, x.s.d))
  IN IF bad THEN Incompat
     ELSE IF x.s.k = s.k THEN
       (IF badshape THEN Incompat
        ELSE Ok(Vec(s, [k \in 1..Len(x.r) |-> [c \in 1..Len(map) |-> x.r[k][map[c]]]], 0, <<>>)))
     ELSE IF bads # {} THEN (IF badshape THEN Fail({"vctrs_error_incompatible_type"}) ELSE IF x.s.nd > 0 THEN LossyAny ELSE Lossy(Which(Len(x.r), LAMBDA k : <<k, 1>> \in bads)))
     ELSE IF badshape THEN Incompat
     ELSE Ok(Vec(s, [k \in 1..Len(x.r) |-> [c \in 1..Len(map) |-> es[k][map[c]].e]], 0, <<>>))

(* the columns of a data frame (or fields of a record) as vectors without names *)
ColVecs(v) ==
  LET s == v.s n == Len(s.h)
      L == [j \in 1..n |-> NLeaves(s.h[j], s.x[j])]
      offs == [j \in 1..n |-> SumSeq([q \in 1..(j-1) |-> L[q]])]
  IN [j \in 1..n |-> Vec(s.h[j], [k \in 1..Len(v.r) |-> SubSeq(v.r[k], offs[j] + 1, offs[j] + L[j] - s.x[j])],
                         s.x[j], IF s.x[j] = 1 THEN [k \in 1..Len(v.r) |-> v.r[k][offs[j] + L[j]]] ELSE <<>>)]
(* put columns together; all of the same size n; names of columns are kept as leaves *)
FromCols(s, cols, n) ==
  Vec([s EXCEPT !.h = [j \in 1..Len(cols) |-> cols[j].s], !.x = [j \in 1..Len(cols) |-> cols[j].hn]],
      [k \in 1..n |-> Concat([j \in 1..Len(cols) |-> cols[j].r[k] \o (IF cols[j].hn = 1 THEN <<cols[j].n[k]>> ELSE <<>>)])], 0, <<>>)
BareVec(v) == [v EXCEPT !.hn = 0, !.n = <<>>]
InitS(s, n) == LET w == Vec(s, <<>>, 0, <<>>) IN Slice(w, Const(n, NA))

RECURSIVE CastS(_, _)
DfCastS(x, s) ==
  LET cols == TLCEval(ColVecs(x))
      rs == TLCEval([j \in 1..Len(s.l) |-> LET p == PosOf(x.s.l, s.l[j]) IN
                        IF p = 0 THEN Ok(InitS(s.h[j], Len(x.r))) ELSE CastS(BareVec(cols[p]), s.h[j])])
      f == FirstFail(rs)
      extra == \E p \in 1..Len(x.s.l) : PosOf(s.l, x.s.l[p]) = 0
  IN IF \E j \in 1..Len(rs) : rs[j].ok \in {2, 4} THEN Unmodelled
     ELSE IF f.ok = 0 THEN f
     ELSE IF extra THEN [ok |-> 0, err |-> {"vctrs_error_cast_lossy_dropped"}]
     ELSE Ok(FromCols(s, [j \in 1..Len(rs) |-> rs[j].out], Len(x.r)))
CastS(x, s) ==
  CASE x.s.k = "null" \/ s.k = "null" -> IF x.s.k = "scalar" \/ s.k = "scalar" THEN ScalarFail ELSE Ok(x)
    [] IsUns(s) /\ ~IsUnspec(x) -> Unmodelled
    [] s.k = "scalar" /\ IsUnspec(x) -> ScalarFail
    [] IsUnspec(x) /\ IsAsis(s) /\ s.k = "i64" -> Unmodelled
    [] IsUnspec(x) -> Ok(InitS(IF IsUns(s) THEN LglShell ELSE s, Len(x.r)))
    [] x.s.k = "scalar" \/ s.k = "scalar" -> ScalarFail
    [] IsAsis(s) /\ s.k = "i64" -> Unmodelled
    [] IsAsis(x.s) -> CastS([x EXCEPT !.s = StripAsis(x.s)], s)
    [] IsAsis(s) -> LET r == CastS(x, StripAsis(s)) IN IF r.ok = 1 THEN Ok([r.out EXCEPT !.s = AddAsis(r.out.s)]) ELSE r
    [] IsBare(x.s) /\ IsBare(s) -> NativeCast(x, s)
    [] x.s.k = "df" /\ s.k = "df" ->
         DfCastS(x, IF s.c \in BareDfC \/ (s.c = x.s.c /\ s.a = x.s.a) THEN s ELSE [s EXCEPT !.c = "data.frame", !.a = ""])
    [] x.s.k = "list" /\ s.k = "lof" /\ x.s.nd # 0 -> IF x.s.nd > 1 THEN Incompat ELSE Unmodelled
    [] x.s.k = "chr" /\ IsBare(x.s) /\ (BareFct(s) \/ BareOrd(s)) ->
         IF x.s.nd # 0 THEN Unmodelled
         ELSE LET lv == IF s.l # <<>> THEN s.l
                        ELSE FoldLeft(LAMBDA acc, row : IF row[1] = <<>> \/ \E k \in 1..Len(acc) : acc[k] = row[1] THEN acc ELSE Append(acc, row[1]), <<>>, x.r)
              IN ByElem(x, [s EXCEPT !.l = lv], LAMBDA e : IF e = <<>> THEN OkE(e) ELSE LET p == PosOf(lv, e) IN IF p = 0 THEN NoE ELSE OkE(<<p>>))
    [] (BareFct(x.s) \/ BareOrd(x.s)) /\ s.k = "chr" /\ IsBare(s) ->
         IF x.s.nd # 0 THEN Unmodelled ELSE CellCast(x, s, LAMBDA e : OkE(IF e = <<>> THEN e ELSE x.s.l[e[1]]))
    [] BareFct(x.s) /\ BareFct(s) ->
         IF s.l = <<>> THEN Ok(x)
         ELSE ByElem(x, s, LAMBDA e : IF e = <<>> THEN OkE(e) ELSE LET p == PosOf(s.l, x.s.l[e[1]]) IN IF p = 0 THEN NoE ELSE OkE(<<p>>))
    [] BareOrd(x.s) /\ BareOrd(s) -> IF x.s.l = s.l THEN Ok(x) ELSE Incompat
    [] BareDate(x.s) /\ BareDate(s) -> Ok([DblStore(x) EXCEPT !.s = DateShell])
    [] BareDttm(x.s) /\ BareDttm(s) -> Ok([DblStore(x) EXCEPT !.s = DttmShell(s.p)])
    [] BareDate(x.s) /\ BareDttm(s) -> ByElem(x, s, LAMBDA e : DayElem(e, s.p))
    [] BareDttm(x.s) /\ BareDate(s) -> ByElem(x, DateShell, LAMBDA e : SecElem(e, x.s.p))
    [] BareDur(x.s) /\ BareDur(s) ->
         IF x.s.p = s.p THEN Ok(x)
         ELSE [ok |-> 4, s |-> s, num |-> UnitSecs(x.s.p), den |-> UnitSecs(s.p)]
    [] x.s.k = "i64" /\ s.k = "i64" -> CellCast(x, s, LAMBDA e : OkE(e))
    [] x.s.k = "i64" /\ IsBare(s) /\ s.k \in {"lgl", "int", "dbl"} -> CellCast(x, s, LAMBDA e : NumAsElem("i64", s.k, e))
    [] s.k = "i64" /\ IsBare(x.s) /\ x.s.k \in {"lgl", "int", "dbl"} -> CellCast(x, s, LAMBDA e : NumAsElem(x.s.k, "i64", e))
    [] BareLof(x.s) /\ s.k = "list" /\ IsBare(s) -> CellCast(x, s, LAMBDA e : OkE(e))
    [] BareLof(x.s) /\ BareLof(s) -> IF x.s.h = s.h THEN Ok(x) ELSE
         LET r == ByElem(x, s, LAMBDA e : ListElemCast(e, s.h[1])) IN IF r.ok = 0 THEN Fail({"vctrs_error_incompatible_type"}) ELSE r
    [] x.s.k = "list" /\ IsBare(x.s) /\ x.s.nd = 0 /\ BareLof(s) ->
         LET r == ByElem(x, s, LAMBDA e : ListElemCast(e, s.h[1])) IN IF r.ok = 0 THEN Fail({"vctrs_error_incompatible_type", "vctrs_error_scalar_type"}) ELSE r
    [] TypeShell(x.s) = TypeShell(s) -> Ok(x)
    [] s.k = "s3" /\ s.c \in {"vt_vctr/vctrs_vctr"} /\ IsBare(x.s) ->
         IF x.s.st = s.st THEN (IF x.s.nd = 0 THEN Ok([x EXCEPT !.s = s]) ELSE Unmodelled) ELSE Incompat
    [] \E q \in {x.s, s} : q.k \in {"i64", "rcrd", "lof"} /\ (q.nd # 0 \/ q.k # "i64") /\ x.s.k = s.k -> Unmodelled
    [] OTHER -> Incompat

Cast(x, to) ==
  IF to.s.k = "null" THEN (IF x.s.k = "scalar" THEN ScalarFail ELSE Ok(x))
  ELSE CastS(x, IF to.s.k = "scalar" THEN to.s ELSE TypeShell(to.s))

(* a duration converted to other units, up to rounding *)
DurOk(x0, r, out) ==
  LET x == DblStore(x0) IN
  /\ out.s = r.s /\ Len(out.r) = Len(x.r)
  /\ \A k \in 1..Len(x.r) :
       LET a == x.r[k][1] b == out.r[k][1] IN
       IF IsMiss("dbl", a) \/ IsMiss("dbl", b) THEN IsMiss("dbl", a) /\ IsMiss("dbl", b)
       ELSE IF ~SmallDbl(a) \/ ~SmallDbl(b) THEN TRUE
       ELSE IF r.num >= r.den
            THEN (IF AbsI(Milli(a)) < 2000000000 \div (r.num \div r.den) THEN AbsI(Milli(b) - Milli(a) * (r.num \div r.den)) <= 2 * (r.num \div r.den) ELSE TRUE)
            ELSE (IF AbsI(Milli(b)) < 2000000000 \div (r.den \div r.num) THEN AbsI(Milli(b) * (r.den \div r.num) - Milli(a)) <= 2 * (r.den \div r.num) ELSE TRUE)

(* does a recorded outcome of a cast agree with the specification's? *)
CastPred(ev, x, r) ==
  CASE r.ok = 2 -> TRUE
    [] r.ok = 4 -> ev.ok = 1 /\ DurOk(x, r, [ev.out EXCEPT !.s = TypeShell(ev.out.s)])
    [] r.ok = 0 -> ev.ok = 0 /\ ErrMatch(r.err, ev.err)
                   /\ ("no" \in DOMAIN r => ~ErrMatch(r.no, ev.err))
                   /\ (("lossy" \in DOMAIN r /\ "lossy" \in DOMAIN ev) => ev.lossy = r.lossy)
    [] OTHER -> ev.ok = 1 /\ LET a == Values(ev.out) b == Values(r.out) IN FinaliseS(a.s) = FinaliseS(b.s) /\ a.r = b.r
=============================================================================

