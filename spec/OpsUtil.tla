----------------------------- MODULE OpsUtil ------------------------------
(* Utilities: obfuscated copies, slices, the command line runner. *)
EXTENDS OpsStore

(* Obfuscation.  e = [o, o2, freeze, pre : Seq([t, p, ok]), skip : Seq(table),              *)
(* ret.ren : Seq([new, t, old, p])], p the letters in front of the number of the new name.  *)
\* tables with one key field whose rows are not mere extensions of another table's rows
EntityTables(Fa) ==
    LET K == Closure(Fa, FKSetOf(Fa.fks))
        halves(k) == /\ Range(PK(Fa, k.nt)) \subseteq {p[1] : p \in k.m}
                     /\ Len(PK(Fa, k.ft)) > 0 /\ Range(PK(Fa, k.ft)) \subseteq {p[2] : p \in k.m}
    IN {t \in TabNames(Fa) : Len(PK(Fa, t)) = 1 /\ ~\E k \in K : k.nt = t /\ halves(k)}
Renamed(Fa, e) == EntityTables(Fa) \ Range(e.skip)
\* the renamed tables a field refers to
RefersTo(Fa, E, t, f) == {k.ft : k \in {x \in Closure(Fa, FKSetOf(Fa.fks)) : x.nt = t /\ x.ft \in E /\ \E p \in x.m : p[1] = f}}
\* the entity whose names a field holds
Holds(Fa, E, t, f) == RefersTo(Fa, E, t, f) \cup (IF <<f>> = PK(Fa, t) THEN {t} \cap E ELSE {})
\* keys that do not refer to a primary key can be in the way of renaming, and so can fields that must hold the names of two
\* kinds of entities, or keys between a field that holds names of an entity and one that does not
ObfOpen(Fa, e) ==
    LET E == Renamed(Fa, e)
        K == Closure(Fa, FKSetOf(Fa.fks))
    IN \/ \E k \in K : {p[2] : p \in k.m} # Range(PK(Fa, k.ft))
       \/ \E k \in K : \E p \in k.m : Holds(Fa, E, k.nt, p[1]) # Holds(Fa, E, k.ft, p[2])
       \/ \E t \in TabNames(Fa) : \E f \in Range(Fields(Fa, t)) : Cardinality(Holds(Fa, E, t, f)) > 1
ObfRefused(Fa, D, e) ==
    \/ HasFKFailures(Fa, D)
    \/ \E t \in TabNames(Fa) : Tab(Fa, t).kind = "gen"
    \/ \E i \in 1..Len(e.pre) : \/ e.pre[i].t \in Range(e.skip)
                                \/ e.pre[i].t \notin EntityTables(Fa)
                                \/ ~e.pre[i].ok
                                \/ \E j \in 1..Len(e.pre) : j # i /\ e.pre[j].p = e.pre[i].p
    \/ ~(Range(e.skip) \subseteq EntityTables(Fa))
\* the renamings reported are one-to-one and speak about exactly the entities
RenOK(Fa, D, e) ==
    LET R == e.ret.ren
        E == Renamed(Fa, e)
        ents == {<<t, Norm(Rows(D, t)[i][1])>> : <<t, i>> \in UNION {{t} \X (1..Len(Rows(D, t))) : t \in E}}
    IN /\ {<<R[i].t, Norm(R[i].old)>> : i \in 1..Len(R)} = ents
       /\ Len(R) = Cardinality(ents)
       /\ Cardinality({R[i].new : i \in 1..Len(R)}) = Len(R)
       /\ \A i \in 1..Len(R) : \A j \in 1..Len(e.pre) : e.pre[j].t = R[i].t => R[i].p = e.pre[j].p
       /\ \A i, j \in 1..Len(R) : (R[i].p = R[j].p) <=> (R[i].t = R[j].t)
RenCell(Fa, e, t, f, v) ==
    LET E == Renamed(Fa, e)
        to == Holds(Fa, E, t, f)
        R == e.ret.ren
        x == CHOOSE u \in to : TRUE
        hit == {i \in 1..Len(R) : R[i].t = x /\ Norm(R[i].old) = Norm(v)}
    IN IF to = {} THEN v ELSE IF hit = {} THEN Str("<no renaming>") ELSE R[CHOOSE i \in hit : TRUE].new
ObfTabs(Fa, D, e) ==
    TLCEval([i \in 1..Len(D) |-> IF Tab(Fa, D[i].t).kind = "generic" THEN D[i]
        ELSE [D[i] EXCEPT !.rows = [r \in 1..Len(@) |-> [j \in 1..Len(Fields(Fa, D[i].t)) |->
                                        RenCell(Fa, e, D[i].t, Fields(Fa, D[i].t)[j], D[i].rows[r][j])]]]])

(* Slices of a collection of index tuples *)
Star == Str("*")
SlicerRefused(rows) == \/ \E i, j \in 1..Len(rows) : Len(rows[i]) # Len(rows[j])
                       \/ \E i \in 1..Len(rows) : \E j \in 1..Len(rows[i]) : rows[i][j] = Star
Matching(rows, pat) == SelectSeq(rows, LAMBDA r : \A j \in 1..Len(pat) : pat[j] = Star \/ Norm(pat[j]) = Norm(r[j]))
Bag(s) == [x \in Range(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

---------------------------------------------------------------------------
(* The command line runner: the error report.  One row per failure, with the fields that  *)
(* identify the row - the primary key, or every field of tables without one.              *)
IdFields(Fa, t) == IF Len(PK(Fa, t)) > 0 THEN PK(Fa, t) ELSE DF(Fa, t)
Plain(Fa) == {t \in TabNames(Fa) : Tab(Fa, t).kind # "generic"}
LongestId(Fa) == LET L == {Len(IdFields(Fa, t)) : t \in Plain(Fa)}
                 IN IF L = {} THEN 0 ELSE CHOOSE n \in L : \A m \in L : m <= n
FieldCols(Fa) == [j \in 1..LongestId(Fa) |-> "Field " \o ToString(j)]
\* the identity of row i, padded with nulls
RepId(Fa, D, t, i) == [j \in 1..LongestId(Fa) |-> IF j <= Len(IdFields(Fa, t)) THEN Rows(D, t)[i][Idx(Fa, t, IdFields(Fa, t)[j])] ELSE Null]
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flatten(Tail(ss))
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
\* one report row per index in ix
Lines(Fa, D, t, ix, head(_)) == LET s == SetSeq(ix) IN TLCEval([j \in 1..Len(s) |-> head(s[j]) \o RepId(Fa, D, t, s[j])])
PredNameVal(p) == IF \E n \in 0..9 : p.name = "#" \o ToString(n) THEN IntV(CHOOSE n \in 0..9 : p.name = "#" \o ToString(n)) ELSE Str(p.name)
PredMsg(p) == IF p.resp = "Boolean" THEN Null ELSE Str(p.msg)
DupReport(Fa, D) == LET T == SetSeq(Plain(Fa)) IN Flatten([i \in 1..Len(T) |-> Lines(Fa, D, T[i], DupIdx(Fa, D, T[i], "first"), LAMBDA r : <<Str(T[i])>>)])
DTReport(Fa, D) == LET T == SetSeq({tf \in TableFields(Fa) : tf[1] \in Plain(Fa)})
                   IN Flatten([i \in 1..Len(T) |-> Lines(Fa, D, T[i][1], DTFailIdx(Fa, D, T[i][1], T[i][2]), LAMBDA r : <<Str(T[i][1]), Str(T[i][2])>>)])
RowReport(Fa, D) == Flatten([i \in 1..Len(Fa.preds) |-> LET p == Fa.preds[i] IN
                                 Lines(Fa, D, p.t, PredFailIdx(Fa, D, p), LAMBDA r : <<Str(p.t), PredNameVal(p), PredMsg(p)>>)])
                    \o Lines(Fa, D, "parameters", ParamFailIdx(Fa, D), LAMBDA r : <<Str("parameters"), Str(ParamCheckName), Null>>)
FKReport(Fa, D) == Flatten([i \in 1..Len(Fa.fks) |-> LET k == Fa.fks[i] IN
                                 Lines(Fa, D, k.nt, FKFailIdx(Fa, D, k), LAMBDA r : <<Str(k.nt), Str(k.ft), Str("any mapping")>>)])
\* a text names the mapping of a key: lx has the quoted words of texts
Names(lx, c, m) == IsStr(c) /\ c.s \in DOMAIN lx /\ LET q == lx[c.s].quoted IN
                      /\ Len(q) = 2 * Len(m)
                      /\ {<<q[2 * i - 1], q[2 * i]>> : i \in 1..Len(m)} = Range(m)
Report(Fa, D) == <<[n |-> "duplicate_rows", cols |-> <<"Table Name">> \o FieldCols(Fa), rows |-> DupReport(Fa, D)],
                   [n |-> "data_type_failures", cols |-> <<"Table Name", "Field Name">> \o FieldCols(Fa), rows |-> DTReport(Fa, D)],
                   [n |-> "data_row_failures", cols |-> <<"Table Name", "Predicate Name", "Error Message">> \o FieldCols(Fa), rows |-> RowReport(Fa, D)],
                   [n |-> "foreign_key_failures", cols |-> <<"Native Table", "Foreign Table", "Mapping">> \o FieldCols(Fa), rows |-> FKReport(Fa, D)]>>
\* a raw cell stands for the value w (formats change how values look)
RepCell(lx, w, c) ==
    LET known(v) == IsStr(v) /\ v.s \in DOMAIN lx
    IN \/ c = w
       \/ IsNull(w) /\ c = Str("")
       \/ w = Str("") /\ IsNull(c)
       \/ w = Str("any mapping")
       \/ known(c) /\ (lx[c.s].num = Norm(w) \/ lx[c.s].num = w \/ AsDate(lx, c) = w \/ (IsBool(w) /\ lx[c.s].bl = (IF w.n = 1 THEN "T" ELSE "F")))
       \/ known(w) /\ IsNum(c) /\ lx[w.s].num = c
       \/ IsBool(w) /\ c = Norm(w)
       \/ IsStr(w) /\ IsStr(c) /\ known(w) /\ lx[w.s].cr      \* escaped carriage returns
RepRow(lx, w, r) == Len(w) = Len(r) /\ \A j \in 1..Len(w) : RepCell(lx, w[j], r[j])
\* the raw table holds exactly these rows, in any order
RepTab(lx, x, tab) ==
    LET at(r, j) == IF tab.cols = <<>> THEN r[j] ELSE r[PosIn(tab.cols, x.cols[j])]
        got == TLCEval([i \in 1..Len(tab.rows) |-> [j \in 1..Len(x.cols) |-> at(tab.rows[i], j)]])
        hits(w) == {i \in 1..Len(got) : RepRow(lx, w, got[i])}
    IN /\ IF tab.cols = <<>> THEN \A i \in 1..Len(tab.rows) : Len(tab.rows[i]) = Len(x.cols)
          ELSE Range(tab.cols) = Range(x.cols) /\ Len(tab.cols) = Len(x.cols)
       /\ Len(got) = Len(x.rows)
       /\ \A w \in Range(x.rows) : Cardinality(hits(w)) >= Cardinality({i \in 1..Len(x.rows) : x.rows[i] = w})
       /\ \A i \in 1..Len(got) : \E w \in Range(x.rows) : RepRow(lx, w, got[i])
ReportFits(Fa, D, e, new) ==
    LET R == Report(Fa, D)
        name(n) == IF e.pretty /\ new.fmt # "json" THEN e.lex[n].pretty ELSE n
        at(n) == IF new.fmt = "sqlite" THEN SqlNamed(e.lex, new.tabs, name(n)) ELSE NamedIn(new.tabs, name(n))
    IN /\ new.exists /\ new.shape = "ok"
       /\ \A i \in 1..4 : Cardinality(at(R[i].n)) = 1 /\ \A j \in at(R[i].n) : RepTab(e.lex, R[i], new.tabs[j])
       \* every failing row of a key is reported under the mapping of that key
       /\ \A j \in at("foreign_key_failures") :
             LET tab == new.tabs[j]
                 col(n) == IF tab.cols = <<>> THEN PosIn(R[4].cols, n) ELSE PosIn(tab.cols, n)
                 K == {i \in 1..Len(Fa.fks) : FKFailIdx(Fa, D, Fa.fks[i]) # {}}
             IN /\ \A i \in 1..Len(tab.rows) : \E k \in K :
                      /\ tab.rows[i][col("Native Table")] = Str(Fa.fks[k].nt)
                      /\ tab.rows[i][col("Foreign Table")] = Str(Fa.fks[k].ft)
                      /\ Names(e.lex, tab.rows[i][col("Mapping")], Fa.fks[k].m)
                /\ \A k \in K : Cardinality({i \in 1..Len(tab.rows) :
                      /\ tab.rows[i][col("Native Table")] = Str(Fa.fks[k].nt)
                      /\ tab.rows[i][col("Foreign Table")] = Str(Fa.fks[k].ft)
                      /\ Names(e.lex, tab.rows[i][col("Mapping")], Fa.fks[k].m)}) = Cardinality(FKFailIdx(Fa, D, Fa.fks[k]))
Flaws(Fa, D) == \E i \in 1..4 : Report(Fa, D)[i].rows # <<>>
Settled(tabs) == \A i \in 1..Len(tabs) : \A r \in Range(tabs[i].rows) : \A j \in 1..Len(r) : ~IsU(r[j])
=============================================================================
