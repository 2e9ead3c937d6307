----------------------------- MODULE Integrity -----------------------------
(* Schema look-ups and the integrity semantics of ticdat: foreign keys, data types,       *)
(* row predicates, duplicates.                                                            *)
(*                                                                                        *)
(* Factory F : [tables : Seq([t, pk, df, kind]), dt : Seq([t, f, ty]), dv : Seq([t,f,v]),  *)
(*              fks : Seq([nt, ft, m : Seq(<<nf, ff>>)]), preds : Seq(pred),               *)
(*              params : Seq([p, typed, ty, v]), ...]                                      *)
(* Data D    : Seq([t, rows : Seq(Seq(value))]); a row lists primary key then data fields. *)
EXTENDS Values

Range(s) == {s[i] : i \in 1..Len(s)}
Tab(F, t) == F.tables[CHOOSE i \in 1..Len(F.tables) : F.tables[i].t = t]
HasTab(F, t) == \E i \in 1..Len(F.tables) : F.tables[i].t = t
TabNames(F) == {F.tables[i].t : i \in 1..Len(F.tables)}
PK(F, t) == Tab(F, t).pk
DF(F, t) == Tab(F, t).df
Fields(F, t) == PK(F, t) \o DF(F, t)
HasField(F, t, f) == \E i \in 1..Len(Fields(F, t)) : Fields(F, t)[i] = f
Idx(F, t, f) == CHOOSE i \in 1..Len(Fields(F, t)) : Fields(F, t)[i] = f
Rows(D, t) == D[CHOOSE i \in 1..Len(D) : D[i].t = t].rows
SetRows(D, t, rows) == [i \in 1..Len(D) |-> IF D[i].t = t THEN [D[i] EXCEPT !.rows = rows] ELSE D[i]]

TypeOf(F, t, f) ==
    LET S == {i \in 1..Len(F.dt) : F.dt[i].t = t /\ F.dt[i].f = f}
    IN IF S = {} THEN <<>> ELSE <<F.dt[CHOOSE i \in S : TRUE].ty>>
DefaultOf(F, t, f) ==
    LET S == {i \in 1..Len(F.dv) : F.dv[i].t = t /\ F.dv[i].f = f}
    IN IF S = {} THEN <<>> ELSE <<F.dv[CHOOSE i \in S : TRUE].v>>

Drop(s, S) == LET keep == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i \notin S)
              IN TLCEval([j \in 1..Len(keep) |-> s[keep[j]]])
Pick(s, S) == LET keep == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i \in S)
              IN TLCEval([j \in 1..Len(keep) |-> s[keep[j]]])

\* The identity of row i of table t as reported by the library:
\* the primary key values, or the position for tables without primary key
RowId(F, D, t, i) == IF Len(PK(F, t)) > 0 THEN SubSeq(Rows(D, t)[i], 1, Len(PK(F, t)))
                     ELSE <<IntV(i - 1)>>

---------------------------------------------------------------------------
(* Foreign keys *)
FKNative(F, fk, row)  == [p \in 1..Len(fk.m) |-> row[Idx(F, fk.nt, fk.m[p][1])]]
FKForeign(F, fk, row) == [p \in 1..Len(fk.m) |-> row[Idx(F, fk.ft, fk.m[p][2])]]
NormSeq(s) == TLCEval([p \in 1..Len(s) |-> Norm(s[p])])

FKFailIdx(F, D, fk) ==
    LET nrows == Rows(D, fk.nt)
        nix == TLCEval([p \in 1..Len(fk.m) |-> Idx(F, fk.nt, fk.m[p][1])])
        fix == TLCEval([p \in 1..Len(fk.m) |-> Idx(F, fk.ft, fk.m[p][2])])
        parents == TLCEval({[p \in 1..Len(fk.m) |-> Norm(r[fix[p]])] : r \in Range(Rows(D, fk.ft))})
    IN {i \in 1..Len(nrows) : [p \in 1..Len(fk.m) |-> Norm(nrows[i][nix[p]])] \notin parents}

FailingFKs(F, D) == {fk \in Range(F.fks) : FKFailIdx(F, D, fk) # {}}
HasFKFailures(F, D) == FailingFKs(F, D) # {}
FailIdxOfTable(F, D, t) == UNION {FKFailIdx(F, D, fk) : fk \in {x \in Range(F.fks) : x.nt = t}}

\* one non cascading pass: exactly the rows failing now
RemovePass(F, D) ==
    TLCEval([i \in 1..Len(D) |-> [D[i] EXCEPT !.rows = Drop(@, FailIdxOfTable(F, D, D[i].t))]])
RECURSIVE RemoveAll(_, _)
RemoveAll(F, D) == IF HasFKFailures(F, D) THEN RemoveAll(F, RemovePass(F, D)) ELSE D

\* cardinality of a foreign key
Card(F, fk) ==
    LET half(t, fs) == IF Len(PK(F, t)) > 0 /\ Range(PK(F, t)) \subseteq fs THEN "one" ELSE "many"
    IN <<half(fk.nt, {fk.m[p][1] : p \in 1..Len(fk.m)}), half(fk.ft, {fk.m[p][2] : p \in 1..Len(fk.m)})>>
SimpleFK(F, fk) == {fk.m[p][2] : p \in 1..Len(fk.m)} = Range(PK(F, fk.ft))

---------------------------------------------------------------------------
(* Data types *)
CellOK(F, t, f, v) ==
    LET ty == TypeOf(F, t, f)
    IN IF ty # <<>> THEN Valid(ty[1], v)
       ELSE f \in Range(PK(F, t)) => ~IsNull(v)
DTFailIdx(F, D, t, f) ==
    LET j == Idx(F, t, f) IN {i \in 1..Len(Rows(D, t)) : ~CellOK(F, t, f, Rows(D, t)[i][j])}
TableFields(F) == {<<t, f>> \in UNION {{t} \X Range(Fields(F, t)) : t \in TabNames(F)} : TRUE}
DTFailing(F, D) == {tf \in TableFields(F) : DTFailIdx(F, D, tf[1], tf[2]) # {}}

\* which (table, field) pairs a replacement touches, and with what.  fl = "tic": typed data fields;
\* fl = "pan": any field for which a replacement or a default exists (untyped keys included)
LookupRepl(R, t, f) == LET S == {i \in 1..Len(R) : R[i].t = t /\ R[i].f = f}
                       IN IF S = {} THEN <<>> ELSE <<R[CHOOSE i \in S : TRUE].v>>
ReplValue(F, R, t, f) == IF LookupRepl(R, t, f) # <<>> THEN LookupRepl(R, t, f) ELSE DefaultOf(F, t, f)
Replaceable(F, fl, R, t, f) ==
    IF fl = "tic" THEN TypeOf(F, t, f) # <<>> /\ f \in Range(DF(F, t))
    ELSE ReplValue(F, R, t, f) # <<>>
ReplLegalArgs(F, fl, R) ==
    \A i \in 1..Len(R) : /\ HasTab(F, R[i].t)
                         /\ R[i].f \in Range(IF fl = "tic" THEN DF(F, R[i].t) ELSE Fields(F, R[i].t))
ReplNeeded(F, D, fl, R) == {tf \in DTFailing(F, D) : Replaceable(F, fl, R, tf[1], tf[2])}
ReplRefused(F, D, fl, R) ==
    \/ ~ReplLegalArgs(F, fl, R)
    \/ \E tf \in ReplNeeded(F, D, fl, R) : ~CellOK(F, tf[1], tf[2], ReplValue(F, R, tf[1], tf[2])[1])
ReplaceDT(F, D, fl, R) ==
    LET need == TLCEval(ReplNeeded(F, D, fl, R))
        cell(t, j, v) == LET f == Fields(F, t)[j]
                         IN IF <<t, f>> \in need /\ ~CellOK(F, t, f, v)
                            THEN ReplValue(F, R, t, f)[1] ELSE v
    IN TLCEval([i \in 1..Len(D) |->
          IF Tab(F, D[i].t).kind = "generic" THEN D[i] ELSE
          [D[i] EXCEPT !.rows = [r \in 1..Len(@) |-> [j \in 1..Len(@[r]) |-> cell(D[i].t, j, @[r][j])]]]])

---------------------------------------------------------------------------
(* Row predicates.  A predicate is [t, name, resp, e, f, g, v, mk]; mk is <<>> or the     *)
(* single argument maker [id, m, t].                                                      *)
(* Outcome of a predicate on a row: "T", "F" or "X" (raises).                             *)
MakerOutcome(mk, D) ==
    CASE mk.m = "raise"   -> [kind |-> "raise", lim |-> Zero]
      [] mk.m = "notdict" -> [kind |-> "notdict", lim |-> Zero]
      [] mk.m = "count"   -> [kind |-> "dict", lim |-> IntV(Len(Rows(D, mk.t)))]
PredOutcome(F, p, row, lim) ==
    LET val(f) == row[Idx(F, p.t, f)]
    IN CASE p.e = "true"   -> "T"
         [] p.e = "false"  -> "F"
         [] p.e = "raise"  -> "X"
         [] p.e = "ge"     -> IF IsNum(val(p.f)) /\ NumLe(p.v, val(p.f)) THEN "T" ELSE "F"
         [] p.e = "eq"     -> IF Norm(val(p.f)) = Norm(p.v) THEN "T" ELSE "F"
         [] p.e = "ne"     -> IF Norm(val(p.f)) = Norm(p.v) THEN "F" ELSE "T"
         [] p.e = "le2"    -> IF IsNum(val(p.f)) /\ IsNum(val(p.g)) /\ NumLe(val(p.f), val(p.g)) THEN "T" ELSE "F"
         [] p.e = "xeq"    -> IF Norm(val(p.f)) = Norm(p.v) THEN "X" ELSE "T"
         [] p.e = "isnull" -> IF IsNull(val(p.f)) THEN "T" ELSE "F"
         [] p.e = "lim"    -> IF IsNum(val(p.f)) /\ NumLe(val(p.f), lim) THEN "T" ELSE "F"

ParamCheckName == "Good Name/Value Check"
ParamOK(F, k, v) == \E i \in 1..Len(F.params) :
                       /\ IsStr(k) /\ F.params[i].p = k.s
                       /\ F.params[i].typed => Valid(F.params[i].ty, v)

\* failing row indices of predicate p; all = TRUE when the maker failed as a whole
PredBulkFails(p, D) == p.mk # <<>> /\ MakerOutcome(p.mk[1], D).kind # "dict"
PredLim(p, D) == IF p.mk = <<>> THEN Zero ELSE MakerOutcome(p.mk[1], D).lim
PredFailIdx(F, D, p) ==
    {i \in 1..Len(Rows(D, p.t)) : PredOutcome(F, p, Rows(D, p.t)[i], PredLim(p, D)) # "T"}
PredRaises(F, D, p) ==
    \/ p.mk # <<>> /\ MakerOutcome(p.mk[1], D).kind = "raise"
    \/ ~PredBulkFails(p, D) /\
       \E i \in 1..Len(Rows(D, p.t)) : PredOutcome(F, p, Rows(D, p.t)[i], PredLim(p, D)) = "X"
ParamFailIdx(F, D) ==
    IF Len(F.params) = 0 THEN {}
    ELSE {i \in 1..Len(Rows(D, "parameters")) :
            ~ParamOK(F, Rows(D, "parameters")[i][1], Rows(D, "parameters")[i][2])}

---------------------------------------------------------------------------
(* Duplicates *)
KeyOf(F, t, row) == NormSeq(SubSeq(row, 1, Len(PK(F, t))))
DupIdx(F, D, t, keep) ==
    LET rows == Rows(D, t)
        ks == TLCEval([i \in 1..Len(rows) |-> KeyOf(F, t, rows[i])])
    IN IF Len(PK(F, t)) = 0 THEN {}
       ELSE {i \in 1..Len(rows) :
               CASE keep = "first" -> \E j \in 1..(i-1) : ks[j] = ks[i]
                 [] keep = "last"  -> \E j \in (i+1)..Len(rows) : ks[j] = ks[i]
                 [] OTHER          -> \E j \in (1..Len(rows)) \ {i} : ks[j] = ks[i]}
=============================================================================
