------------------------------- MODULE Session -------------------------------
(* Histories of operations over registers that may share memory (C19, C20, C21).
   State of a session: h, what each register holds (a value, not a location); memo, what each call with given argument
   values has returned before; env, the part of the R session that every operation must leave alone (options, attributes of
   the string table, random seed, search path). A step calls operation c on argument values a and puts its result in d. *)
EXTENDS Arith

(* ---- C19: a vector is well formed *)
AllIs(q, n) == \A k \in 1..Len(q) : q[k] = n
RECURSIVE ProdOf(_)
ProdOf(q) == IF q = <<>> THEN 1 ELSE q[1] * ProdOf(Tail(q))
(* casting to a subclass of data frames that has no methods gives a bare data frame *)
(* the shape of elements of a user's class is the business of its cast method *)
HasType(s, pt) == TypeShell(s) = TypeShell(pt) \/ (s.k = "s3" /\ pt.k = "s3" /\ <<s.c, s.p, s.st, s.a>> = <<pt.c, pt.p, pt.st, pt.a>>) \/ (s.k = "df" /\ pt.k = "df" /\ pt.c \notin {"data.frame", "tbl_df/tbl/data.frame"} /\ <<s.h, s.l>> = <<pt.h, pt.l>>)
RECURSIVE WellMade(_)
WellMade(w) ==
  /\ CASE w.k = "df" -> w.list = 1 /\ AllIs(w.cs, w.n) /\ (w.nn = w.len \/ w.len = 0)
       [] w.k = "rcrd" -> AllIs(w.cs, w.n) /\ w.nn = w.len /\ w.dup = 0 /\ w.len > 0
       [] w.k = "fct" -> w.int = 1 /\ w.lo >= 1 /\ w.hi <= w.nl /\ w.dup = 0 /\ w.chr = 1 /\ w.nn \in {-1, w.n}
       [] w.k = "lof" -> w.nn \in {-1, w.n} /\ \A k \in 1..Len(w.es) : w.es[k].z = 1 \/ HasType(w.es[k].s, w.pt)
       [] w.k = "vec" -> /\ w.nn \in {-1, w.n}
                         /\ w.d = <<-1>> \/ (ProdOf(w.d) = w.n /\ (w.dn = <<>> \/ (Len(w.dn) = Len(w.d) /\ \A k \in 1..Len(w.d) : w.dn[k] \in {-1, w.d[k]})))
       [] OTHER -> TRUE
  /\ "ch" \in DOMAIN w => \A k \in 1..Len(w.ch) : WellMade(w.ch[k])
(* an operation that keeps its input's type keeps class and attributes *)
KeepsType(k) == k = <<>> \/ (TypeShell(k[1]) = TypeShell(k[2]) /\ k[1].a = k[2].a)

(* ---- one step; "" when it is allowed, otherwise what is wrong with it *)
CallKey(s) == <<s.c, s.a>>
FaultOutcomes == {"E:vt_fault", "J"}
WrongStep(h, memo, env, s) ==
  IF \E j \in 1..Len(s.a) : s.at[j] > 0 /\ s.a[j] # h[s.at[j]] THEN "argument is not what the register held"
  ELSE IF s.aa # s.a THEN "an argument was changed"
  ELSE IF s.h # (IF s.ok = 1 /\ s.d > 0 THEN [h EXCEPT ![s.d] = s.o] ELSE h) THEN "another register was changed"
  ELSE IF s.f = 1 /\ (s.ok = 1 \/ s.o \notin FaultOutcomes) THEN "the error of a method did not reach the caller"
  ELSE IF s.f = 0 /\ CallKey(s) \in DOMAIN memo /\ memo[CallKey(s)] # s.o THEN "the same call gave another result before"
  ELSE IF SubSeq(s.e, 1, 2) # <<env, env>> \/ s.e[3] # s.e[4] THEN "the session was left changed"
  ELSE IF ~WellMade(s.w) THEN "the result is malformed"
  ELSE IF ~KeepsType(s.k) THEN "the result lost its type"
  ELSE ""
(* the session's next state; bad: the first step not allowed *)
NextSession(st, s) ==
  IF st.bad # "" THEN st
  ELSE LET w == WrongStep(st.h, st.memo, st.env, s) IN
       IF w # "" THEN [st EXCEPT !.bad = w]
       ELSE [n |-> st.n + 1, bad |-> "", h |-> s.h, env |-> st.env,
             memo |-> IF s.f = 1 \/ CallKey(s) \in DOMAIN st.memo THEN st.memo ELSE (CallKey(s) :> s.o) @@ st.memo]
(* what earlier sessions have established *)
MemoOf(m0) == LET ks == {<<m0[k].c, m0[k].a>> : k \in 1..Len(m0)} IN [q \in ks |-> LET k == CHOOSE k \in 1..Len(m0) : <<m0[k].c, m0[k].a>> = q IN m0[k].o]
ExpSession(ev) ==
  LET end == FoldLeft(NextSession, [n |-> 1, bad |-> "", h |-> ev.h0, memo |-> MemoOf(ev.m0), env |-> ev.e0], ev.steps) IN
  [ok |-> 1, all |-> ev.mut = 0 /\ end.bad = "",
   exp |-> IF end.bad = "" THEN end.n ELSE LET s == ev.steps[end.n] IN <<end.n, end.bad, s.c, s.m, s.p, s.src, s.o, ev.kinds, s.k, s.w>>]
=============================================================================
