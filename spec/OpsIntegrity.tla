--------------------------- MODULE OpsIntegrity ---------------------------
(* Integrity operations as transition functions over the abstract state                   *)
(*    F : function from factory id to factory,  O : function from object id to object     *)
(* and as clauses that a recorded event must satisfy.                                     *)
EXTENDS Integrity

SetOfSeq(s) == Range(s)
FacOf(F, O, e) == F[O[e.o].fac]
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumCard(_)
SumCard(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Cardinality(x[2]) + SumCard(S \ {x})
\* number of rows reported (positions are unknown for tables whose index has repeated labels)
RECURSIVE SumLen(_, _)
SumLen(s, i) == IF i > Len(s) THEN 0 ELSE (IF s[i].hasids THEN Len(s[i].ids) ELSE Len(s[i].rows)) + SumLen(s, i + 1)
RECURSIVE IsSubSeq(_, _)
IsSubSeq(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                  ELSE IF a[1] = b[1] THEN IsSubSeq(Tail(a), Tail(b)) ELSE IsSubSeq(a, Tail(b))

\* clause list -> set of names of the failing ones
Bad(cl) == {cl[i][1] : i \in {j \in 1..Len(cl) : ~cl[j][2]}}

\* Is the reported position/key list, for the given expected row indices, exact / a subset?
IdsOf(Fa, O, o, t, idx) ==
    IF O[o].fl = "pan" THEN {<<IntV(i - 1)>> : i \in idx}
    ELSE {NormSeq(RowId(Fa, O[o].tabs, t, i)) : i \in idx}
ReportedIds(r) == {NormSeq(r.ids[i]) : i \in 1..Len(r.ids)}

ExactRows(Fa, O, o, t, idx, r) ==
    IF r.hasids
    THEN /\ ReportedIds(r) = IdsOf(Fa, O, o, t, idx)
         /\ Len(r.ids) = Cardinality(idx)
         /\ O[o].fl = "pan" => r.rows = Pick(Rows(O[o].tabs, t), idx)
    ELSE r.rows = Pick(Rows(O[o].tabs, t), idx)
SubRows(Fa, O, o, t, idx, r) ==
  IF ~r.hasids THEN Len(r.rows) > 0 /\ IsSubSeq(r.rows, Pick(Rows(O[o].tabs, t), idx)) ELSE
    /\ ReportedIds(r) \subseteq IdsOf(Fa, O, o, t, idx)
    /\ Cardinality(ReportedIds(r)) = Len(r.ids)
    /\ Len(r.ids) > 0

---------------------------------------------------------------------------
MapSet(m) == {m[p] : p \in 1..Len(m)}
SameFK(a, b) == a.nt = b.nt /\ a.ft = b.ft /\ MapSet(a.m) = MapSet(b.m)

FindFKClauses(F, O, e) ==
    LET Fa == FacOf(F, O, e)
        D == O[e.o].tabs
        R == e.ret.fks
        known(r) == \E fk \in Range(Fa.fks) : SameFK(fk, r)
        idx(r) == FKFailIdx(Fa, D, r)
        ids2idx(r) == {i \in 1..Len(Rows(D, r.nt)) :
                          (IF O[e.o].fl = "pan" THEN <<IntV(i-1)>> ELSE NormSeq(RowId(Fa, D, r.nt, i))) \in ReportedIds(r)}
        vals(r, ix) == {NormSeq(FKNative(Fa, r, Rows(D, r.nt)[i])) : i \in ix}
        valsok(r, ix) == O[e.o].fl = "tic" =>
                            /\ {NormSeq(r.vals[i]) : i \in 1..Len(r.vals)} = vals(r, ix)
                            /\ Len(r.vals) = Cardinality(vals(r, ix))
        total == SumCard({<<fk, FKFailIdx(Fa, D, fk)>> : fk \in Range(Fa.fks)})
        allknown == \A i \in 1..Len(R) : known(R[i])
    IN IF ~e.ret.ok THEN {"findfk.raise"}
       ELSE IF ~allknown THEN {"findfk.keys"}
       ELSE IF e.max = 0
       THEN Bad(<< <<"findfk.keys", /\ Len(R) = Cardinality(FailingFKs(Fa, D))
                                    /\ \A fk \in FailingFKs(Fa, D) : \E i \in 1..Len(R) : SameFK(fk, R[i])>>,
                   <<"findfk.rows", \A i \in 1..Len(R) : ExactRows(Fa, O, e.o, R[i].nt, idx(R[i]), R[i])>>,
                   <<"findfk.vals", \A i \in 1..Len(R) : valsok(R[i], idx(R[i]))>>,
                   <<"findfk.card", \A i \in 1..Len(R) : R[i].card = "" \/
                                       R[i].card = Card(Fa, R[i])[1] \o "-to-" \o Card(Fa, R[i])[2]>> >>)
       ELSE Bad(<< <<"limit.fk.distinct", \A i, j \in 1..Len(R) : i # j => ~SameFK(R[i], R[j])>>,
                   <<"limit.fk.subset", \A i \in 1..Len(R) : SubRows(Fa, O, e.o, R[i].nt, idx(R[i]), R[i])>>,
                   <<"limit.fk.vals", \A i \in 1..Len(R) : valsok(R[i], ids2idx(R[i]))>>,
                   <<"limit.fk.count", SumLen(R, 1) = Min2(e.max, total)>> >>)

RemoveFKPost(F, O, e) ==
    LET Fa == FacOf(F, O, e)
        D == O[e.o].tabs
    IN IF O[e.o].fl = "tic" /\ e.prop = "no" THEN RemovePass(Fa, D) ELSE RemoveAll(Fa, D)

---------------------------------------------------------------------------
\* rows of generator tables are not examined by every flavour: what a search says about their values is not settled
GenFails(Fa, D) == \E tf \in DTFailing(Fa, D) : Tab(Fa, tf[1]).kind = "gen"
FindDTClauses(F, O, e) ==
    LET Fa == FacOf(F, O, e)
        D == O[e.o].tabs
        R == e.ret.fails
        known(r) == HasTab(Fa, r.t) /\ HasField(Fa, r.t, r.f)
        idx(r) == DTFailIdx(Fa, D, r.t, r.f)
        cell(r, i) == Norm(Rows(D, r.t)[i][Idx(Fa, r.t, r.f)])
        ids2idx(r) == {i \in 1..Len(Rows(D, r.t)) : NormSeq(RowId(Fa, D, r.t, i)) \in ReportedIds(r)}
        valsok(r, ix) == O[e.o].fl = "tic" => {Norm(r.vals[i]) : i \in 1..Len(r.vals)} = {cell(r, i) : i \in ix}
        total == SumCard({<<tf, DTFailIdx(Fa, D, tf[1], tf[2])>> : tf \in TableFields(Fa)})
    IN IF ~e.ret.ok THEN {"finddt.raise"}
       ELSE IF GenFails(Fa, D) THEN {}
       ELSE IF ~(\A i \in 1..Len(R) : known(R[i])) THEN {"finddt.keys"}
       ELSE IF e.max = 0
       THEN Bad(<< <<"finddt.keys", /\ {<<R[i].t, R[i].f>> : i \in 1..Len(R)} = DTFailing(Fa, D)
                                    /\ Len(R) = Cardinality(DTFailing(Fa, D))>>,
                   <<"finddt.rows", \A i \in 1..Len(R) : ExactRows(Fa, O, e.o, R[i].t, idx(R[i]), R[i])>>,
                   <<"finddt.vals", \A i \in 1..Len(R) : valsok(R[i], idx(R[i]))>> >>)
       ELSE Bad(<< <<"limit.dt.subset", \A i \in 1..Len(R) : SubRows(Fa, O, e.o, R[i].t, idx(R[i]), R[i])>>,
                   <<"limit.dt.vals", \A i \in 1..Len(R) : valsok(R[i], ids2idx(R[i]))>>,
                   <<"limit.dt.count", SumLen(R, 1) = Min2(e.max, total)>> >>)

ReplaceRefused(F, O, e) == ReplRefused(FacOf(F, O, e), O[e.o].tabs, O[e.o].fl, e.repl)
ReplacePost(F, O, e) ==
    IF ReplaceRefused(F, O, e) THEN O[e.o].tabs
    ELSE ReplaceDT(FacOf(F, O, e), O[e.o].tabs, O[e.o].fl, e.repl)

---------------------------------------------------------------------------
Unhandled(exc) == exc \in {"", "__debug__", "Unhandled"}
Literal(p) == p.resp = "Error Message" /\ p.tru = "int"   \* answers 1 instead of literal True on good rows

FindRowClauses(F, O, e) ==
    LET Fa == FacOf(F, O, e)
        D == O[e.o].tabs
        R == e.ret.fails
        P == Range(Fa.preds)
        failidx(p) == IF Literal(p) THEN 1..Len(Rows(D, p.t)) ELSE PredFailIdx(Fa, D, p)
        raises == \E p \in P : PredRaises(Fa, D, p)
        pred(r) == CHOOSE p \in P : p.t = r.t /\ p.name = r.name
        isreg(r) == \E p \in P : p.t = r.t /\ p.name = r.name
        isparam(r) == r.t = "parameters" /\ ~isreg(r) /\ Len(Fa.params) > 0
        expidx(r) == IF isreg(r) THEN failidx(pred(r)) ELSE ParamFailIdx(Fa, D)
        rowat(r, j) == IF O[e.o].fl = "pan" THEN (r.ids[j][1].n \div 4) + 1
                       ELSE CHOOSE i \in 1..Len(Rows(D, r.t)) : NormSeq(RowId(Fa, D, r.t, i)) = NormSeq(r.ids[j])
        msgok(r) == IF r.bulk \/ ~isreg(r) \/ pred(r).resp = "Boolean" THEN TRUE
                    ELSE IF O[e.o].fl = "pan" /\ (~e.table \/ ~r.hasids) THEN TRUE
                    ELSE /\ Len(r.msgs) = Len(r.ids)
                         /\ ReportedIds(r) \subseteq IdsOf(Fa, O, e.o, r.t, 1..Len(Rows(D, r.t)))
                         /\ \A j \in 1..Len(r.msgs) :
                              LET oc == PredOutcome(Fa, pred(r), Rows(D, r.t)[rowat(r, j)], PredLim(pred(r), D))
                              IN CASE oc = "F" -> r.msgs[j] = pred(r).msg
                                   [] oc = "X" -> r.msgs[j] # "" /\ r.msgs[j] # "True"
                                   [] OTHER -> TRUE
        failing == {<<p.t, p.name>> : p \in {q \in P : PredBulkFails(q, D) \/ failidx(q) # {}}}
        nparam == Cardinality({i \in 1..Len(R) : isparam(R[i])})
        bulkn == Cardinality({p \in P : PredBulkFails(p, D)})
        total == bulkn + Cardinality(ParamFailIdx(Fa, D)) +
                 SumCard({<<p, failidx(p)>> : p \in {q \in P : ~PredBulkFails(q, D)}})
        nbulk == Cardinality({i \in 1..Len(R) : R[i].bulk})
        makers == {p.mk[1].id : p \in {q \in P : q.mk # <<>>}}
        \* an unhandled exception propagates, unless the limit was reached before the raising row
    IN IF Unhandled(e.exc) /\ raises /\ (~e.ret.ok \/ e.max = 0 \/ SumLen(R, 1) + nbulk < e.max)
       THEN (IF e.ret.ok THEN {"findrow.exception"} ELSE {})
       ELSE IF ~e.ret.ok THEN {"findrow.raise"}
       ELSE IF ~(\A i \in 1..Len(R) : isreg(R[i]) \/ isparam(R[i])) THEN {"findrow.keys"}
       ELSE IF e.max = 0
       THEN Bad(<< <<"findrow.keys", /\ {<<R[i].t, R[i].name>> : i \in {j \in 1..Len(R) : isreg(R[j])}} = failing
                                     /\ nparam = (IF ParamFailIdx(Fa, D) = {} THEN 0 ELSE 1)
                                     /\ Len(R) = Cardinality(failing) + nparam>>,
                   <<"findrow.bulk", \A i \in 1..Len(R) : isreg(R[i]) => (R[i].bulk <=> PredBulkFails(pred(R[i]), D))>>,
                   <<"findrow.rows", \A i \in 1..Len(R) : (~R[i].bulk /\ ~(isreg(R[i]) /\ PredBulkFails(pred(R[i]), D))) =>
                                          ExactRows(Fa, O, e.o, R[i].t, expidx(R[i]), R[i])>>,
                   <<"findrow.msgs", \A i \in 1..Len(R) : msgok(R[i])>>,
                   <<"findrow.makercalls", \A m \in makers : \E i \in 1..Len(e.ret.calls) :
                                              e.ret.calls[i].id = m /\ e.ret.calls[i].n = 1>> >>)
       ELSE Bad(<< <<"limit.row.subset", \A i \in 1..Len(R) :
                         IF R[i].bulk THEN isreg(R[i]) /\ PredBulkFails(pred(R[i]), D)
                         ELSE SubRows(Fa, O, e.o, R[i].t, expidx(R[i]), R[i])>>,
                   <<"limit.row.msgs", \A i \in 1..Len(R) : msgok(R[i])>>,
                   <<"limit.row.count", SumLen(R, 1) + nbulk = Min2(e.max, total)>> >>)

---------------------------------------------------------------------------
FindDupClauses(F, O, e) ==
    LET Fa == FacOf(F, O, e)
        D == O[e.o].tabs
        R == e.ret.dups
        exp == {t \in TabNames(Fa) : DupIdx(Fa, D, t, e.keep) # {}}
    IN IF ~e.ret.ok THEN {"finddup.raise"}
       ELSE Bad(<< <<"finddup.keys", {R[i].t : i \in 1..Len(R)} = exp /\ Len(R) = Cardinality(exp)>>,
                   <<"finddup.rows", \A i \in 1..Len(R) : R[i].t \in exp =>
                                        ExactRows(Fa, O, e.o, R[i].t, DupIdx(Fa, D, R[i].t, e.keep), R[i])>> >>)
=============================================================================
