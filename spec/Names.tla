-------------------------------- MODULE Names --------------------------------
(* Name repair. A name is an element: NA is <<>>, otherwise <<1, code points...>>. *)
EXTENDS Elem

Dot == 46
Body(nm) == IF nm = <<>> THEN <<>> ELSE Tail(nm)
Named(cs) == <<1>> \o cs

AllDigits(cs, k) == k <= Len(cs) /\ \A j \in k..Len(cs) : IsDigit(cs[j])
DotsThenDigits(cs, m) == Len(cs) > m /\ (\A j \in 1..m : cs[j] = Dot) /\ AllDigits(cs, m + 1)
(* "..1", "...23": two or three dots followed by a number *)
IsDotDotInt(cs) == DotsThenDigits(cs, 2) \/ DotsThenDigits(cs, 3)
IsReserved(nm) == nm = <<>> \/ nm = <<1>> \/ Body(nm) = <<Dot, Dot, Dot>> \/ IsDotDotInt(Body(nm))

(* remove every trailing "...<digits>" that something precedes *)
RECURSIVE TrailDigits(_, _)
TrailDigits(cs, k) == IF k = 0 \/ ~IsDigit(cs[k]) THEN k ELSE TrailDigits(cs, k - 1)
RECURSIVE StripPos(_)
StripPos(cs) ==
  LET k == TrailDigits(cs, Len(cs)) IN
  IF k < Len(cs) /\ k >= 4 /\ cs[k] = Dot /\ cs[k-1] = Dot /\ cs[k-2] = Dot
  THEN StripPos(SubSeq(cs, 1, k - 3)) ELSE cs
HasSuffix(nm) == nm # <<>> /\ StripPos(Body(nm)) # Body(nm)

AllDistinct(ns) == Cardinality(Range1(ns)) = Len(ns)
AlreadyUnique(ns) == AllDistinct(ns) /\ \A k \in 1..Len(ns) : ~IsReserved(ns[k])

UniqueBase(nm) == IF IsReserved(nm) THEN <<1>> ELSE LET b == Named(StripPos(Body(nm))) IN IF IsReserved(b) THEN <<1>> ELSE b
UniqueNames(ns) ==
  IF AlreadyUnique(ns) /\ \A k \in 1..Len(ns) : ~HasSuffix(ns[k]) THEN ns
  ELSE LET base == TLCEval([k \in 1..Len(ns) |-> UniqueBase(ns[k])])
           cnt(nm) == Cardinality({k \in 1..Len(base) : base[k] = nm})
       IN [k \in 1..Len(ns) |->
             IF base[k] # <<1>> /\ cnt(base[k]) = 1 THEN base[k]
             ELSE base[k] \o <<Dot, Dot, Dot>> \o DigitsOf(k)]

MinimalNames(ns) == [k \in 1..Len(ns) |-> IF ns[k] = <<>> THEN <<1>> ELSE ns[k]]

(* checking *)
DotDotName(nm) == Body(nm) = <<Dot, Dot, Dot>> \/ DotsThenDigits(Body(nm), 2)
CheckFault(ns) ==
  IF \E k \in 1..Len(ns) : ns[k] = <<1>> THEN "vctrs_error_names_cannot_be_empty"
  ELSE IF \E k \in 1..Len(ns) : DotDotName(ns[k]) THEN "vctrs_error_names_cannot_be_dot_dot"
  ELSE IF ~AllDistinct(ns) THEN "vctrs_error_names_must_be_unique" ELSE ""

(* ---- universal names: unique and syntactic ---- *)
Upper(c) == c >= 65 /\ c <= 90
Lower(c) == c >= 97 /\ c <= 122
(* letters beyond ASCII: Latin, Greek, CJK ideographs *)
Letter(c) == Upper(c) \/ Lower(c) \/ (c >= 192 /\ c <= 382 /\ c # 215 /\ c # 247) \/ (c >= 913 /\ c <= 969) \/ (c >= 19968 /\ c <= 40869)
Words == { \* if else repeat while function for next break in TRUE FALSE NULL Inf NaN NA NA_integer_ NA_real_ NA_character_ NA_complex_
  <<105, 102>>, <<101, 108, 115, 101>>, <<114, 101, 112, 101, 97, 116>>, <<119, 104, 105, 108, 101>>, <<102, 117, 110, 99, 116, 105, 111, 110>>,
  <<102, 111, 114>>, <<110, 101, 120, 116>>, <<98, 114, 101, 97, 107>>, <<105, 110>>, <<84, 82, 85, 69>>, <<70, 65, 76, 83, 69>>, <<78, 85, 76, 76>>,
  <<73, 110, 102>>, <<78, 97, 78>>, <<78, 65>>, <<78, 65, 95, 105, 110, 116, 101, 103, 101, 114, 95>>, <<78, 65, 95, 114, 101, 97, 108, 95>>,
  <<78, 65, 95, 99, 104, 97, 114, 97, 99, 116, 101, 114, 95>>, <<78, 65, 95, 99, 111, 109, 112, 108, 101, 120, 95>>}
Syntactic(cs) ==
  /\ cs # <<>> /\ cs \notin Words
  /\ \A k \in 1..Len(cs) : Letter(cs[k]) \/ IsDigit(cs[k]) \/ cs[k] \in {Dot, 95}
  /\ Letter(cs[1]) \/ (cs[1] = Dot /\ ~(Len(cs) > 1 /\ IsDigit(cs[2])))
(* remove every trailing "...<position>" *)
RECURSIVE StripAll(_)
StripAll(cs) ==
  LET k == TrailDigits(cs, Len(cs)) IN
  IF k < Len(cs) /\ k >= 3 /\ cs[k] = Dot /\ cs[k-1] = Dot /\ cs[k-2] = Dot /\ cs[k+1] # 48
  THEN StripAll(SubSeq(cs, 1, k - 3)) ELSE cs
Naked(cs) == StripAll(IF DotsThenDigits(cs, 2) /\ cs[3] # 48 THEN <<Dot>> \o cs ELSE cs)
MakeSyntactic(cs0) ==
  LET cs == IF cs0 # <<>> /\ cs0[1] = 95 THEN <<Dot>> \o cs0 ELSE cs0
      valid == [k \in 1..Len(cs) |-> IF Letter(cs[k]) \/ IsDigit(cs[k]) \/ cs[k] = 95 THEN cs[k] ELSE Dot]
      word == IF valid \in Words THEN <<Dot>> \o valid ELSE valid
      (* an invalid last character moves to the front when it is the only change *)
      lead == IF word = <<>> THEN 0 ELSE IF word[1] # Dot THEN 0 ELSE IF Len(word) > 1 /\ word[2] = Dot THEN 2 ELSE 1
      rest == SubSeq(word, lead + 1, Len(word))
      digits == IF rest # <<>> /\ IsDigit(rest[1]) THEN TRUE ELSE FALSE
  IN IF ~digits THEN word
     ELSE (IF AllDigits(rest, 1) THEN <<Dot, Dot, Dot>> ELSE <<Dot, Dot>>) \o rest
RECURSIVE UniversalNames(_)
UniversalNames(ns) ==
  LET naked == TLCEval([k \in 1..Len(ns) |-> Naked(Body(ns[k]))])
      syn == TLCEval([k \in 1..Len(ns) |-> IF naked[k] \in {<<>>, <<Dot, Dot, Dot>>} THEN <<>>
                                            ELSE LET m == MakeSyntactic(naked[k]) IN IF m = <<Dot, Dot, Dot>> THEN <<>> ELSE m])
      out == TLCEval([k \in 1..Len(ns) |-> IF syn[k] = <<>> \/ Cardinality({j \in 1..Len(ns) : syn[j] = syn[k]}) > 1
                       THEN Named(syn[k] \o <<Dot, Dot, Dot>> \o DigitsOf(k)) ELSE Named(syn[k])])
  IN IF AllDistinct(out) THEN out ELSE UniversalNames(out)
=============================================================================
