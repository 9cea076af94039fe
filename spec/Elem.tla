-------------------------------- MODULE Elem --------------------------------
(* Elements: the atoms rows are made of. An element is a sequence of integers (see harness/proj.c):
   NA is <<>>; logical/integer <<v>>; raw <<byte>>; character <<1, code points...>>;
   double <<a,b,c,d>> with x = a*2^22 + b + c/2^30 + d/2^60 (every limb carries the sign), NaN <<0>>,
   negative zero has a fifth limb; complex = tag (1 finite, 0 NaN, 2 NA) + 4 limbs, twice;
   integer64 three signed limbs; list: NULL is <<>>, otherwise an injective flattening. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

NA == -999999999

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
AbsI(a) == IF a < 0 THEN 0 - a ELSE a
Range1(s) == {s[k] : k \in 1..Len(s)}
Concat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)
SumSeq(s) == FoldLeft(LAMBDA acc, v : acc + v, 0, s)
MaxSeq(s) == FoldLeft(LAMBDA acc, v : MaxI(acc, v), 0, s)
Const(n, v) == [k \in 1..n |-> v]
Iota(n) == [k \in 1..n |-> k]
(* positions of a sequence that satisfy P, ascending *)
Which(n, P(_)) == SelectSeq(Iota(n), P)

MissElem(leaf) ==
  CASE leaf = "raw" -> <<0>>
    [] leaf = "cpl" -> <<2, 0, 0, 0, 0, 2, 0, 0, 0, 0>>
    [] leaf \in {"name", "rowname"} -> <<1>>
    [] OTHER -> <<>>

(* missing: NA or NaN *)
IsMiss(leaf, e) ==
  CASE leaf = "raw" -> FALSE
    [] leaf = "cpl" -> e[1] # 1 \/ e[6] # 1
    [] leaf = "dbl" -> Len(e) <= 1
    [] OTHER -> e = <<>>

IsNaN(leaf, e) == leaf = "dbl" /\ e = <<0>>

NormElem(leaf, e) == IF leaf = "dbl" /\ Len(e) = 5 THEN SubSeq(e, 1, 4) ELSE e
EqElem(leaf, a, b) == a = b \/ (leaf = "dbl" /\ NormElem(leaf, a) = NormElem(leaf, b))

(* lexicographic comparison of integer sequences, the shorter one first *)
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, k) ==
  IF k > Len(a) THEN (IF k > Len(b) THEN 0 ELSE -1)
  ELSE IF k > Len(b) THEN 1
  ELSE IF a[k] < b[k] THEN -1
  ELSE IF a[k] > b[k] THEN 1
  ELSE LexFrom(a, b, k + 1)
Lex(a, b) == IF a = b THEN 0 ELSE LexFrom(a, b, 1)

(* non-missing elements of one leaf: the C locale order for strings is the code point order *)
CmpElem(leaf, a, b) == Lex(NormElem(leaf, a), NormElem(leaf, b))

(* an integral double within the integer range as an integer, else NA *)
DblIsInt(e) == Len(e) >= 4 /\ e[3] = 0 /\ e[4] = 0 /\ Len(e) # 7 /\ AbsI(e[1]) <= 511
DblToInt(e) == e[1] * 4194304 + e[2]
(* truncating division toward zero keeps the sign on both limbs *)
IntToDbl(v) ==
  IF v = NA THEN <<>>
  ELSE LET m == AbsI(v) sg == IF v < 0 THEN -1 ELSE 1 IN <<sg * (m \div 4194304), sg * (m % 4194304), 0, 0>>
IntElemToDbl(e) == IF e = <<>> THEN <<>> ELSE IntToDbl(e[1])
IntOf(e) == IF e = <<>> THEN NA ELSE e[1]
ElemOf(i) == IF i = NA THEN <<>> ELSE <<i>>

(* ASCII strings, for building expected names: character codes *)
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DigitsOf(n \div 10), 48 + (n % 10))
IsDigit(c) == c >= 48 /\ c <= 57
=============================================================================
