------------------------------- MODULE MC_Enc -------------------------------
(* Strings as they are stored: bytes and a declared encoding, interned as a pair. Re-encoding strings in place is a step
   that no operation may notice; comparing interned strings is only right after normalisation. *)
EXTENDS MCBase
Encs == {"latin1", "utf8", "native"}
(* UTF-8 bytes of a code point below 2048, and the single byte of a Latin-1 character *)
Utf8(c) == IF c < 128 THEN <<c>> ELSE <<192 + (c \div 64), 128 + (c % 64)>>
InLatin1(e) == \A k \in 2..Len(e) : e[k] < 256
Ascii(e) == \A k \in 2..Len(e) : e[k] < 128
Bytes(e, enc) == IF enc = "latin1" THEN Tail(e) ELSE Concat([k \in 1..(Len(e) - 1) |-> Utf8(e[k + 1])])
(* ASCII strings have no encoding; the session is UTF-8, so that native strings hold UTF-8 bytes *)
Store(e, enc) == IF Ascii(e) THEN [b |-> Tail(e), f |-> "ascii"] ELSE [b |-> Bytes(e, enc), f |-> enc]
RECURSIVE Decode(_)
Decode(b) == IF b = <<>> THEN <<>> ELSE IF b[1] < 128 THEN <<b[1]>> \o Decode(Tail(b)) ELSE <<(b[1] - 192) * 64 + b[2] - 128>> \o Decode(SubSeq(b, 3, Len(b)))
Chars(s) == <<1>> \o (IF s.f = "latin1" THEN s.b ELSE Decode(s.b))
Normal(s) == Store(Chars(s), "utf8")
Eacute == 233
Strs == {StrA, Ch(Eacute), Ch(235), <<1, 97, Eacute>>, <<1, 195, 169>>, Ch(256)}
Enc1(e) == IF InLatin1(e) THEN Encs ELSE Encs \ {"latin1"}
Sz == IF Quick THEN 2 ELSE 3
VARIABLES x, y, x0, y0, steps
vars == <<x, y, x0, y0, steps>>
Seqs(n) == SeqUpTo(Strs, n)
Init == \E f \in Seqs(Sz), g \in Seqs(2) : x0 = f /\ y0 = g /\ x = [k \in 1..Len(f) |-> Store(f[k], "utf8")] /\ y = [k \in 1..Len(g) |-> Store(g[k], "utf8")] /\ steps = 0
Next == steps < 3 /\ steps' = steps + 1 /\ UNCHANGED <<x0, y0>> /\
  \/ \E k \in 1..Len(x), enc \in Encs : enc \in Enc1(Chars(x[k])) /\ x' = [x EXCEPT ![k] = Store(Chars(x[k]), enc)] /\ x' # x /\ UNCHANGED y
  \/ \E k \in 1..Len(y), enc \in Encs : enc \in Enc1(Chars(y[k])) /\ y' = [y EXCEPT ![k] = Store(Chars(y[k]), enc)] /\ y' # y /\ UNCHANGED x
(* C23: the characters survive *)
Stutter == [k \in 1..Len(x) |-> Chars(x[k])] = x0 /\ [k \in 1..Len(y) |-> Chars(y[k])] = y0
(* identity of normalised strings is equality of characters *)
Interned == \A j \in 1..Len(x) : \A k \in 1..Len(y) : (Normal(x[j]) = Normal(y[k])) <=> (x0[j] = y0[k])
Idempotent == \A j \in 1..Len(x) : Normal(Normal(x[j])) = Normal(x[j])
(* operations on interned, normalised strings give what the specification says of the characters *)
FirstOf(s) == [k \in 1..Len(s) |-> CHOOSE j \in 1..k : s[j] = s[k] /\ \A i \in 1..(j-1) : s[i] # s[k]]
NX == [k \in 1..Len(x) |-> Normal(x[k])]
NY == [k \in 1..Len(y) |-> Normal(y[k])]
Dictionary == FirstOf(NX) = FirstIx(Keys(ChrVec(x0)))
MatchesOf == VecMatch(ChrVec(x0), ChrVec(y0), 1).i = [k \in 1..Len(x) |-> IF \E j \in 1..Len(y) : NY[j] = NX[k] THEN CHOOSE j \in 1..Len(y) : NY[j] = NX[k] /\ \A i \in 1..(j-1) : NY[i] # NX[k] ELSE 0]
(* UTF-8 bytes sort like code points, whatever the original encoding; raw bytes do not *)
ByBytes == \A j \in 1..Len(x) : \A k \in 1..Len(y) : Lex(Normal(x[j]).b, Normal(y[k]).b) = CmpElem("chr", x0[j], y0[k])
V == {ChrVec(f) : f \in Seqs(2)} \cup {WithNames(IntVec(<<1, 2>>), f) : f \in [1..2 -> Strs]}
C1 == {[x |-> v] : v \in {w \in V : w.s.k = "chr"} \cup {ChrVec(f) : f \in [1..3 -> Strs]}}
C2 == {[x |-> a, y |-> b] : a, b \in {w \in V : w.s.k = "chr"}}
C3 == {[x |-> c.x, y |-> c.y, ptype |-> NullVec] : c \in C2}
Cases == {CaseG(C1, OpP({"vec_unique", "vec_duplicate_detect", "vec_duplicate_id", "vec_group_id"}, [z : {0}])),
          CaseG(C3, OpP({"vec_set_intersect", "vec_set_union", "vec_set_difference", "vec_set_symmetric_difference"}, [z : {0}])),
          CaseG(C2, OpP({"vec_match", "vec_in"}, [na_equal : {1}]))}
ASSUME Write(SetToSeq(Cases))
=============================================================================
