------------------------------- MODULE Conform -------------------------------
(* Which result the specification requires of one recorded call. *)
EXTENDS Session

NamesOf(v) == IF v.s.k = "null" THEN [hn |-> 0, n |-> <<>>] ELSE [hn |-> 1, n |-> Column(v, 1)]
ExpLoc(ev) ==
  LET p == ev.p nm == NamesOf(ev.v.names) IN
  CASE ev.op = "vec_as_location" -> LocVec(AsLocOpts(ev.v.i, p.n, nm.hn, nm.n, [LocDefaults EXCEPT !.missing = p.missing]))
    [] ev.op = "num_as_location" ->
         IF ev.v.i.s.k \notin {"int", "dbl"} THEN Fail({"any"})
         ELSE LocVec(AsLocOpts(ev.v.i, p.n, 0, <<>>, [missing |-> p.missing, negative |-> p.negative, oob |-> p.oob, zero |-> p.zero]))
    [] ev.op = "vec_as_location2" -> LocVec(AsLoc2(ev.v.i, p.n, nm.hn, nm.n, p.missing, "error"))
    [] ev.op = "num_as_location2" ->
         IF ev.v.i.s.st \notin {"int", "dbl"} THEN Fail({"any"})
         ELSE LocVec(AsLoc2(ev.v.i, p.n, 0, <<>>, p.missing, p.negative))
    [] ev.op = "vec_as_subscript" ->
         LET s == AsSubscript(ev.v.i, p.logical = "cast", p.numeric = "cast", p.character = "cast") IN
         IF s.ok = 0 THEN s
         ELSE Ok(Vec(BareShell(s.t), [k \in 1..Len(s.e) |-> <<s.e[k]>>], s.hn, s.n))

MissNorm(w) == [k \in 1..Len(w.r) |-> [j \in 1..Len(w.r[k]) |-> IF w.r[k][j] = <<0>> THEN <<>> ELSE w.r[k][j]]]
(* a predicate on the whole event *)
Pred(b) == [pred |-> b]
TypeIs(ev, r) == (* the event's result is the type r (modulo names) or the failure r *)
  IF r.ok = 2 THEN [all |-> TRUE] ELSE IF r.ok = 0 THEN [r EXCEPT !.ok = 0] ELSE IF ev.ok = 0 THEN [ok |-> 1, s |-> r.s] ELSE [ok |-> 1, pred |-> Len(ev.out.r) = 0 /\ TypeShell(ev.out.s) = TypeShell(r.s), s |-> r.s]
ExpType(ev) ==
  CASE ev.op = "vec_ptype" -> IF ev.v.x.s.k = "scalar" THEN ScalarFail ELSE TypeIs(ev, OkS(PtypeS(ev.v.x)))
    [] ev.op = "vec_ptype2" -> TypeIs(ev, Ptype2(ev.v.x, ev.v.y))
    [] ev.op = "vec_ptype_common" -> TypeIs(ev, PtypeCommon(ev.l.xs, ev.v.ptype))
    [] ev.op = "vec_cast" -> LET r == Cast(ev.v.x, ev.v.to) IN [ok |-> ev.ok, all |-> CastPred(ev, ev.v.x, r), exp |-> r]
    [] ev.op = "vec_cast_common" ->
         LET t == PtypeCommon(ev.l.xs, ev.v.to) IN
         IF t.ok = 2 THEN [all |-> TRUE] ELSE IF t.ok = 0 THEN t
         ELSE LET rs == [k \in 1..Len(ev.l.xs) |-> CastS(ev.l.xs[k], t.s)] f == FirstFail(SelectSeq(rs, LAMBDA q : q.ok = 0)) IN
              IF f.ok = 0 THEN Fail(IF \E k \in 1..Len(rs) : rs[k].ok = 2 THEN {"any"} ELSE f.err)
              ELSE [ok |-> ev.ok, exp |-> rs,
                    all |-> IF ev.ok = 0 THEN \E k \in 1..Len(rs) : rs[k].ok = 2
                            ELSE /\ Len(ev.outs) = Len(rs)
                                 /\ ev.on = ev.ln.xs
                                 /\ \A k \in 1..Len(rs) : CastPred([ok |-> 1, out |-> ev.outs[k]], ev.l.xs[k], rs[k])]
    [] ev.op = "roundtrip" -> (* cast to a common type and back *)
         LET c == Ptype2(ev.v.x, ev.v.y) IN
         IF c.ok = 2 THEN [all |-> TRUE] ELSE IF c.ok = 0 THEN c
         ELSE LET there == CastS(ev.v.x, c.s) IN
              IF there.ok = 4 THEN [all |-> TRUE]
              ELSE IF there.ok # 1 THEN [ok |-> ev.ok, exp |-> there, all |-> CastPred(ev, ev.v.x, there)]
              ELSE LET back == CastS(there.out, TypeShell(ev.v.x.s)) IN
                   [ok |-> ev.ok, exp |-> back,
                    all |-> CastPred(ev, there.out, back) /\ (ev.ok = 1 => MissNorm(Values(ev.out)) = MissNorm(Values(ev.v.x)))]
    [] ev.op = "strict_cast" -> (* without reference to the cast table: exactly the type asked for, and information kept, or failure *)
         [ok |-> ev.ok, exp |-> ev.v.to.s,
          all |-> ev.ok = 1 => TypeShell(ev.out.s) = TypeShell(ev.v.to.s) /\ Len(ev.out.r) = Len(ev.v.x.r)
                               /\ (ev.v.x.s.k = "i64" /\ ev.v.to.s.k = "lgl" => \A k \in 1..Len(ev.v.x.r) : ev.v.x.r[k][1] \in {<<>>, <<0, 0, 0>>, <<0, 0, 1>>})]
    [] ev.op = "strict_roundtrip" -> [ok |-> 1, exp |-> ev.v.x, pred |-> ev.ok = 1 /\ Values(ev.out) = Values(ev.v.x)]
    [] ev.op = "common_grouping" -> [ok |-> 1, exp |-> "order independent", pred |-> ev.ok = 1 /\ ev.out = <<1>>]

Expect(ev) ==
  CASE ev.op = "vec_slice" -> VecSlice(ev.v.x, ev.v.i)
    [] ev.op = "vec_init" -> VecInit(ev.v.x, ev.p.n)
    [] ev.op = "vec_slice_seq" -> Ok(Slice(ev.v.x, SeqLocs(ev.p.start, ev.p.size, ev.p.inc)))
    [] ev.op = "vec_slice_rep" -> Ok(Slice(ev.v.x, Const(ev.p.n, ev.p.i)))
    [] ev.op \in {"vec_as_location", "num_as_location", "vec_as_location2", "num_as_location2", "vec_as_subscript"} -> ExpLoc(ev)
    [] ev.op \in RelOps -> ExpRel(ev)
    [] ev.op \in OrderOps -> ExpOrd(ev)
    [] ev.op \in CombOps -> ExpComb(ev)
    [] ev.op \in JoinOps -> ExpJoin(ev)
    [] ev.op \in IvOps -> ExpIv(ev)
    [] ev.op \in NameOps -> ExpNames(ev)
    [] ev.op \in BindOps -> ExpBind(ev)
    [] ev.op \in ArithNames -> ExpArith(ev)
    [] ev.op = "session" -> ExpSession(ev)
    [] ev.op \in {"vec_ptype", "vec_ptype2", "vec_ptype_common", "vec_cast", "vec_cast_common", "roundtrip", "common_grouping", "strict_cast", "strict_roundtrip"} -> ExpType(ev)

Conforms(ev) ==
  /\ ev.mut = 0
  /\ LET x == Expect(ev) IN
     IF "all" \in DOMAIN x THEN x.all ELSE
     /\ x.ok = ev.ok
     /\ IF ev.ok = 0 THEN ErrMatch(x.err, ev.err) /\ ("no" \in DOMAIN x => ~ErrMatch(x.no, ev.err))
        ELSE IF "pred" \in DOMAIN x THEN x.pred
        ELSE x.out = ev.out
=============================================================================
