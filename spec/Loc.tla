--------------------------------- MODULE Loc ---------------------------------
(* Subscript resolution. *)
EXTENDS Vec

SubType == {"vctrs_error_subscript_type"}
SubOob == {"vctrs_error_subscript_oob"}
SubSize == {"vctrs_error_subscript_size"}

LocOk(is, hn, n) == [ok |-> 1, i |-> is, hn |-> hn, n |-> n]

(* the subscript as a logical, integer or character vector, or the type error *)
AsSubscript(i, lglOk, numOk, chrOk) ==
  LET allNA == i.s.k = "lgl" /\ \A k \in 1..Len(i.r) : i.r[k][1] = <<>>
      asInt == [ok |-> 1, t |-> "int", e |-> [k \in 1..Len(i.r) |-> i.r[k][1]], hn |-> i.hn, n |-> i.n]
      keep(t) == [ok |-> 1, t |-> t, e |-> [k \in 1..Len(i.r) |-> i.r[k][1]], hn |-> i.hn, n |-> i.n]
  IN
  CASE i.s.k = "null" -> IF numOk THEN [ok |-> 1, t |-> "int", e |-> <<>>, hn |-> 0, n |-> <<>>] ELSE Fail(SubType)
    [] i.s.nd > 1 \/ i.s.k \in {"df", "scalar", "rcrd", "list", "lof", "cpl", "raw", "date", "dttm", "dur", "lt", "s3"} -> Fail(SubType)
    [] i.s.k = "lgl" ->
         IF lglOk THEN keep("lgl")
         ELSE IF ~allNA \/ Len(i.r) = 0 THEN Fail(SubType)
         ELSE IF numOk THEN keep("int")
         ELSE IF chrOk THEN keep("chr") ELSE Fail(SubType)
    [] i.s.k = "int" -> IF numOk THEN keep("int") ELSE Fail(SubType)
    [] i.s.k = "dbl" ->
         IF \E k \in 1..Len(i.r) : ~IsMiss("dbl", i.r[k][1]) /\ ~DblIsInt(i.r[k][1]) THEN Fail(SubType)
         ELSE IF ~numOk THEN Fail(SubType)
         ELSE [ok |-> 1, t |-> "int", hn |-> i.hn, n |-> i.n,
               e |-> [k \in 1..Len(i.r) |-> IF IsMiss("dbl", i.r[k][1]) THEN <<>> ELSE <<DblToInt(i.r[k][1])>>]]
    [] i.s.k \in {"fct", "ord"} ->
         IF ~chrOk THEN Fail(SubType)
         ELSE [ok |-> 1, t |-> "chr", hn |-> i.hn, n |-> i.n,
               e |-> [k \in 1..Len(i.r) |-> IF i.r[k][1] = <<>> THEN <<>> ELSE i.s.l[i.r[k][1][1]]]]
    [] i.s.k = "chr" -> IF chrOk THEN keep("chr") ELSE Fail(SubType)
    [] OTHER -> Fail(SubType \cup {"vctrs_error_cast_lossy"})

(* keep the positions K (ascending) of a location sequence and its names *)
KeepPos(is, hn, n, K) ==
  LocOk([k \in 1..Len(K) |-> is[K[k]]], hn, IF hn = 1 THEN [k \in 1..Len(K) |-> n[K[k]]] ELSE <<>>)

LglLoc(e, hn, n, size, o) ==
  LET anyNA == \E k \in 1..Len(e) : e[k] = <<>> IN
  IF Len(e) = size THEN
    IF anyNA /\ o.missing = "error" THEN Fail(SubType)
    ELSE KeepPos([k \in 1..size |-> IF e[k] = <<>> THEN NA ELSE k], hn, n,
                 Which(size, LAMBDA k : (e[k] # <<>> /\ e[k][1] = 1) \/ (e[k] = <<>> /\ o.missing = "propagate")))
  ELSE IF Len(e) = 1 THEN
    IF e[1] = <<>> /\ o.missing = "error" THEN Fail(SubType)
    ELSE LET m == IF (e[1] = <<>> /\ o.missing = "propagate") \/ (e[1] # <<>> /\ e[1][1] = 1) THEN size ELSE 0
         IN LocOk([k \in 1..m |-> IF e[1] = <<>> THEN NA ELSE k], hn, IF hn = 1 THEN Const(m, n[1]) ELSE <<>>)
  ELSE Fail(SubSize)

IntLoc(is, hn, n, size, o) ==
  LET neg == \E k \in 1..Len(is) : is[k] # NA /\ is[k] < 0
      pos == \E k \in 1..Len(is) : is[k] > 0
      zero == \E k \in 1..Len(is) : is[k] = 0
      na == \E k \in 1..Len(is) : is[k] = NA
      oobp == \E k \in 1..Len(is) : is[k] > size
      oobn == \E k \in 1..Len(is) : is[k] # NA /\ is[k] < 0 - size
      err(c, s) == IF c THEN s ELSE {}
  IN
  IF neg /\ o.negative = "invert" THEN
    LET errs == err(pos \/ (zero /\ o.zero = "error") \/ (na /\ o.missing # "remove"), SubType)
                \cup err((oobn /\ o.oob # "remove") \/ (oobp /\ o.oob = "error" /\ pos), SubOob)
        gone == {0 - is[k] : k \in {j \in 1..Len(is) : is[j] # NA /\ is[j] < 0}}
    IN IF errs # {} THEN Fail(errs) ELSE LocOk(Which(size, LAMBDA k : k \notin gone), 0, <<>>)
  ELSE
    LET ext == SelectSeq(is, LAMBDA v : v > size)
        badext == Range1(ext) # (size+1)..(size+Len(ext))
        errs == err((neg /\ o.negative = "error") \/ (zero /\ o.zero = "error") \/ (na /\ o.missing = "error"), SubType)
                \cup err((oobp /\ o.oob = "error") \/ (neg /\ oobn /\ o.oob \in {"error", "extend"})
                         \/ (oobp /\ o.oob = "extend" /\ badext), SubOob)
    IN IF errs # {} THEN Fail(errs)
       ELSE KeepPos(is, hn, n, Which(Len(is), LAMBDA k :
              IF is[k] = NA THEN o.missing # "remove"
              ELSE IF is[k] = 0 THEN o.zero # "remove"
              ELSE o.oob # "remove" \/ AbsI(is[k]) <= size))

ChrLoc(e, hn, n, names, o) ==
  LET first(nm) == LET K == {k \in 1..Len(names) : names[k] = nm} IN IF K = {} THEN NA ELSE CHOOSE k \in K : \A j \in K : k <= j
      loc == TLCEval([k \in 1..Len(e) |-> IF e[k] = <<>> THEN NA ELSE first(e[k])])
      empty == \E k \in 1..Len(e) : e[k] = <<1>>
      miss == \E k \in 1..Len(e) : e[k] = <<>>
      unknown == \E k \in 1..Len(e) : e[k] # <<>> /\ e[k] # <<1>> /\ loc[k] = NA
      errs == (IF empty \/ (miss /\ o.missing = "error") THEN SubType ELSE {}) \cup (IF unknown THEN SubOob ELSE {})
  IN IF errs # {} THEN Fail(errs)
     ELSE KeepPos(loc, hn, n, Which(Len(e), LAMBDA k : loc[k] # NA \/ o.missing # "remove"))

LocDefaults == [missing |-> "propagate", negative |-> "invert", oob |-> "error", zero |-> "remove"]

(* names: [hn, n] of the indexed vector *)
AsLocOpts(i, size, vhn, vn, o) ==
  LET s == AsSubscript(i, TRUE, TRUE, TRUE) IN
  IF s.ok = 0 THEN s
  ELSE CASE s.t = "lgl" -> LglLoc(s.e, s.hn, s.n, size, o)
         [] s.t = "int" -> IntLoc([k \in 1..Len(s.e) |-> IntOf(s.e[k])], s.hn, s.n, size, o)
         [] OTHER -> IF vhn = 0 THEN Fail({"any"}) ELSE ChrLoc(s.e, s.hn, s.n, vn, o)
AsLoc(i, size, vhn, vn) == AsLocOpts(i, size, vhn, vn, LocDefaults)

(* the single-location form *)
AsLoc2(i, size, vhn, vn, missing, negative) ==
  LET s == AsSubscript(i, FALSE, TRUE, TRUE) IN
  IF s.ok = 0 THEN Fail(SubType)
  ELSE IF Len(s.e) # 1 THEN Fail(SubType)
  ELSE IF s.e[1] = <<>> THEN (IF missing = "error" THEN Fail(SubType) ELSE LocOk(<<NA>>, s.hn, s.n))
  ELSE IF s.t = "chr" THEN (IF vhn = 0 THEN Fail({"any"}) ELSE ChrLoc(s.e, s.hn, s.n, vn, [LocDefaults EXCEPT !.missing = missing]))
  ELSE LET v == s.e[1][1] IN
       IF v = 0 \/ (v < 0 /\ negative = "error") THEN Fail(SubType)
       ELSE IF AbsI(v) > size THEN Fail(SubOob)
       ELSE LocOk(<<v>>, s.hn, s.n)
=============================================================================
