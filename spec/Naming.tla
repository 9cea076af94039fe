-------------------------------- MODULE Naming --------------------------------
(* C17 names of vectors: repairing, getting, setting. *)
EXTENDS Interval

Repairs == {"minimal", "unique", "universal", "check_unique", "unique_quiet", "universal_quiet"}
RepairFns == {"fn_dash", "fn_rev", "fn_na", "fn_short", "fn_int", "fn_null"}
(* informed about: names changed by a repair that is not quiet *)
Informs(repair, quiet, old, new) == IF quiet = 0 /\ repair \in {"unique", "universal"} /\ MinimalNames(old) # new THEN 1 ELSE 0
ChrNames(v) == v.s.k = "chr"
NameVec(v) == Column(v, 1)
(* the names a vector has, if any *)
OwnNames(x) == IF x.hn = 1 THEN x.n ELSE Const(Size(x), <<1>>)

VecAsNames(names, repair, quiet) ==
  IF ~ChrNames(names) THEN Fail({"any"})
  ELSE IF repair = "check_unique" /\ \E k \in 1..Size(names) : names.r[k][1] = <<>> THEN Fail({"any"})
  ELSE LET ns == NameVec(names) r == RepairNames(ns, repair) IN
  IF r.ok = 0 THEN r
  ELSE [ok |-> 1, out |-> [v |-> [names EXCEPT !.r = [k \in 1..Len(r.n) |-> <<r.n[k]>>]], msg |-> Informs(repair, quiet, ns, r.n)]]
VecNames2(x, repair, quiet) ==
  LET r == RepairNames(OwnNames(x), repair) IN
  IF r.ok = 0 THEN r
  ELSE [ok |-> 1, n |-> r.n, msg |-> IF repair \in RepairFns /\ quiet = 0 /\ r.n # MinimalNames(OwnNames(x)) THEN 1 ELSE Informs(repair, quiet, OwnNames(x), r.n)]
WithNewNames(x, names) == \* names: <<>> for none or a vector
  IF names.s.k = "null" THEN Ok(Canon(Unnamed(x)))
  ELSE IF ~ChrNames(names) \/ Size(names) # Size(x) THEN Fail({"any"})
  ELSE IF x.s.k \in {"rcrd"} THEN Fail({"any"})
  ELSE LET ns == NameVec(names) IN
       Ok(Canon([x EXCEPT !.hn = 1, !.n = IF x.s.k = "df" THEN UniqueNames(ns) ELSE IF x.s.k = "lof" \/ x.s.c = "vt_vctr/vctrs_vctr" THEN MinimalNames(ns) ELSE ns]))
RepairVec(x, repair, quiet) ==
  IF x.s.k = "df" THEN [ok |-> 1, v |-> x, msg |-> 0]
  ELSE LET r == VecNames2(x, repair, quiet) IN
  IF r.ok = 0 THEN r
  ELSE IF x.s.k = "rcrd" THEN Fail({"any"})
  ELSE [ok |-> 1, v |-> Canon([x EXCEPT !.hn = 1, !.n = r.n]), msg |-> r.msg]

(* known finding: "1" is made "...1", which looks like a repaired empty name at position 1 *)
MakesSuffix(ns) == \E k \in 1..Len(ns) : LET n == Naked(Body(ns[k])) IN n \notin {<<>>, <<Dot, Dot, Dot>>} /\ StripAll(MakeSyntactic(n)) # MakeSyntactic(n)
NameOps == {"vec_as_names", "vec_as_names_twice", "vec_names", "vec_names2", "vec_set_names", "vec_repair_names"}
ExpNames(ev) ==
  CASE ev.op = "vec_as_names" ->
         LET e == VecAsNames(ev.v.names, ev.p.repair, ev.p.quiet) IN
         IF e.ok = 2 THEN [all |-> TRUE] ELSE e
    (* whatever the names are: the repaired names are as many, in their place, as clean as asked for, and stay as they are when repaired again *)
    [] ev.op = "vec_as_names_twice" ->
         [ok |-> 1, exp |-> IF ev.p.repair = "universal_quiet" THEN UniversalNames(ev.out.once) ELSE UniqueNames(ev.out.once),
          pred |-> /\ ev.ok = 1 /\ Len(ev.out.once) = Size(ev.v.names)
                   /\ AllDistinct(ev.out.once)
                   /\ CheckFault(ev.out.once) = ""
                   /\ ev.out.once = ev.out.twice \/ (ev.p.strict = 0 /\ ev.p.repair = "universal_quiet" /\ MakesSuffix(NameVec(ev.v.names)))
                   /\ ev.p.repair = "universal_quiet" => \A k \in 1..Len(ev.out.once) : Syntactic(Body(ev.out.once[k]))]
    [] ev.op = "vec_names" -> [ok |-> 1, out |-> [hn |-> ev.v.x.hn, n |-> ev.v.x.n]]
    [] ev.op = "vec_names2" -> LET e == VecNames2(ev.v.x, ev.p.repair, ev.p.quiet) IN IF e.ok = 0 THEN e ELSE [ok |-> 1, out |-> [n |-> e.n, msg |-> e.msg]]
    [] ev.op = "vec_set_names" -> IF ev.v.x.s.k = "scalar" THEN Fail({"any"}) ELSE WithNewNames(ev.v.x, ev.v.names)
    [] ev.op = "vec_repair_names" -> LET e == RepairVec(ev.v.x, ev.p.repair, ev.p.quiet) IN IF e.ok = 0 THEN e ELSE [ok |-> 1, out |-> [v |-> e.v, msg |-> e.msg]]
=============================================================================
