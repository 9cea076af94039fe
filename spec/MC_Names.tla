------------------------------- MODULE MC_Names -------------------------------
(* Names over a small alphabet: they are edited a character at a time and repaired, again and again. *)
EXTENDS MCBase
Alpha == {46, 49, 97, 32}
MaxLen == IF Quick THEN 6 ELSE 7 \* characters over all names
MaxN == IF Quick THEN 2 ELSE 3
VARIABLES ns, old, how, rounds
vars == <<ns, old, how, rounds>>
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Len(Body(Head(q))) + Total(Tail(q))
Init == ns \in SeqUpTo({<<>>, <<1>>}, MaxN) /\ old = ns /\ how = "edit" /\ rounds = 0
Edit == \E k \in 1..Len(ns), c \in Alpha :
  /\ how = "edit" /\ ns[k] # <<>> /\ Total(ns) < MaxLen
  /\ ns' = [ns EXCEPT ![k] = @ \o <<c>>] /\ old' = ns' /\ UNCHANGED <<how, rounds>>
Repair == \E r \in {"unique", "universal"} :
  /\ how = "edit" /\ rounds < 1
  /\ ns' = (IF r = "unique" THEN UniqueNames(ns) ELSE UniversalNames(ns)) /\ old' = ns /\ how' = r /\ rounds' = rounds + 1
(* after a repair one name is replaced by another's: the usual way names clash again *)
Clash == \E j, k \in 1..Len(ns) : /\ how # "edit" /\ j # k /\ Total(old) <= MaxLen - 2
  /\ ns' = [ns EXCEPT ![j] = ns[k]] /\ old' = ns' /\ how' = "clash" /\ UNCHANGED rounds
Again == /\ how = "clash" /\ ns' = UniqueNames(ns) /\ old' = ns /\ how' = "unique" /\ rounds' = 2
Next == Edit \/ Repair \/ Clash \/ Again
Repaired == how \in {"unique", "universal"}
MakesSfx(q) == \E k \in 1..Len(q) : LET n == Naked(Body(q[k])) IN n \notin {<<>>, <<Dot, Dot, Dot>>} /\ StripAll(MakeSyntactic(n)) # MakeSyntactic(n)
(* C17 *)
Clean == Repaired => Len(ns) = Len(old) /\ AllDistinct(ns) /\ CheckFault(ns) = "" /\ \A k \in 1..Len(ns) : ns[k] # <<>>
Idempotent == /\ how = "unique" => UniqueNames(ns) = ns
              /\ how = "universal" => UniversalNames(ns) = ns \/ MakesSfx(old)
SyntacticLaw == how = "universal" => \A k \in 1..Len(ns) : Syntactic(Body(ns[k]))
(* a good name that nobody else wants is kept *)
Kept == how = "unique" => \A k \in 1..Len(ns) : (~IsReserved(old[k]) /\ ~HasSuffix(old[k]) /\ \A j \in 1..Len(ns) \ {k} : UniqueBase(old[j]) # old[k]) => ns[k] = old[k]
(* what a name becomes depends on its position and the multiset of names, not on the order of the others *)
Local == how = "unique" => \A k \in 1..Len(ns) : ns[k] \in {UniqueBase(old[k]), UniqueBase(old[k]) \o <<Dot, Dot, Dot>> \o DigitsOf(k)}
Cases == {CaseG({[names |-> ChrVec(q)] : q \in UNION {[1..m -> {Named(s) : s \in SeqUpTo(Alpha, IF m = 1 THEN 4 ELSE 2)} \cup {<<>>}] : m \in 0..2}},
                [op : {"vec_as_names"}, p : [repair : {"minimal", "unique", "universal", "check_unique"}, quiet : {0}]])}
ASSUME Write(SetToSeq(Cases))
=============================================================================
