----------------------------- MODULE OpsObjects -----------------------------
(* Construction, editing, freezing, object checks, foreign key links, copies and          *)
(* conversions as transition functions and as clauses on recorded events.                 *)
EXTENDS OpsIntegrity

TabRec(D, t) == D[CHOOSE i \in 1..Len(D) : D[i].t = t]
PosIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
InSeq(s, x) == \E i \in 1..Len(s) : s[i] = x
OK(x)  == [ok |-> TRUE, v |-> x]
NO     == [ok |-> FALSE, v |-> <<>>]
AllOK(s) == \A i \in 1..Len(s) : s[i].ok
Vals(s) == TLCEval([i \in 1..Len(s) |-> s[i].v])
Def0(Fa, t, f) == IF DefaultOf(Fa, t, f) = <<>> THEN Zero ELSE DefaultOf(Fa, t, f)[1]

---------------------------------------------------------------------------
(* Rows.  A supplied row is [kind : "dict" | "list" | "scalar", cells : Seq([f, v]), vals]. *)
CellOf(r, f) == LET S == {i \in 1..Len(r.cells) : r.cells[i].f = f} IN S
RowVals(r, flds, def(_)) ==     \* the values of a supplied row for the given fields, or NO
    CASE r.kind = "dict" -> IF \A i \in 1..Len(r.cells) : InSeq(flds, r.cells[i].f)
                            THEN OK(TLCEval([j \in 1..Len(flds) |->
                                     IF CellOf(r, flds[j]) # {} THEN r.cells[CHOOSE i \in CellOf(r, flds[j]) : TRUE].v
                                     ELSE def(flds[j])]))
                            ELSE NO
      [] r.kind = "list" -> IF Len(r.vals) = Len(flds) THEN OK(r.vals) ELSE NO
      [] OTHER           -> IF Len(flds) = 1 THEN OK(r.vals) ELSE NO
DataVals(Fa, t, r) == RowVals(r, DF(Fa, t), LAMBDA f : Def0(Fa, t, f))
FullVals(Fa, t, r) == RowVals(r, Fields(Fa, t), LAMBDA f : Def0(Fa, t, f))
\* a key must be given as a tuple exactly for compound keys
KeyOK(Fa, t, x) == Len(x.k) = Len(PK(Fa, t)) /\ (x.kt <=> Len(PK(Fa, t)) > 1)

\* later rows replace earlier ones with the same key
RECURSIVE Dedupe(_, _, _)
Dedupe(rows, n, acc) ==
    IF rows = <<>> THEN acc
    ELSE LET k == NormSeq(SubSeq(rows[1], 1, n))
             S == {i \in 1..Len(acc) : NormSeq(SubSeq(acc[i], 1, n)) = k}
         IN IF S = {} THEN Dedupe(Tail(rows), n, Append(acc, rows[1]))
            ELSE Dedupe(Tail(rows), n, [acc EXCEPT ![CHOOSE i \in S : TRUE] =
                              SubSeq(@, 1, n) \o SubSeq(rows[1], n + 1, Len(rows[1]))])

---------------------------------------------------------------------------
(* Construction of one table from a table input [t, form, ent, cols, rows, idx] *)
FrameCell(x, i, f) == x.rows[i][PosIn(x.cols \o x.idx, f)]
TabResult(ok, rows, cols, n) == [ok |-> ok, rows |-> rows, cols |-> cols, n |-> n]
Refused == TabResult(FALSE, <<>>, <<>>, 0)

BuildGeneric(Fa, x) == IF x.form = "df" THEN TabResult(TRUE, x.rows, x.cols, Len(x.rows)) ELSE Refused

BuildTic(Fa, x) ==
    LET t == x.t
        n == Len(PK(Fa, t))
        finish(rows, k) == TabResult(TRUE, IF n = 0 THEN rows ELSE TLCEval(Dedupe(rows, n, <<>>)), <<>>, k)
    IN CASE Tab(Fa, t).kind = "generic" -> BuildGeneric(Fa, x)
         [] Tab(Fa, t).kind = "gen" /\ x.form \notin {"list", "gen"} -> Refused
         [] Tab(Fa, t).kind # "gen" /\ x.form = "gen" -> Refused
         [] x.form = "dict" ->
              LET rs == [i \in 1..Len(x.ent) |-> DataVals(Fa, t, x.ent[i].r)]
              IN IF n > 0 /\ AllOK(rs) /\ \A i \in 1..Len(x.ent) : KeyOK(Fa, t, x.ent[i])
                 THEN finish([i \in 1..Len(x.ent) |-> x.ent[i].k \o rs[i].v], Len(x.ent)) ELSE Refused
         [] x.form \in {"list", "gen"} ->
              LET rs == [i \in 1..Len(x.ent) |-> FullVals(Fa, t, x.ent[i].r)]
              IN IF AllOK(rs) THEN finish(Vals(rs), Len(x.ent)) ELSE Refused
         [] x.form \in {"df", "series"} ->
              LET cols == IF x.form = "series" THEN DF(Fa, t) ELSE x.cols
                  isidx == n > 0 /\ x.idx = PK(Fa, t)
                  dflt(f) == DefaultOf(Fa, t, f) # <<>> /\ ~InSeq(cols, f) /\ ~(isidx /\ InSeq(x.idx, f)) /\ x.form = "df"
                  has(f) == InSeq(cols, f) \/ dflt(f)
                  pkcols == \A j \in 1..n : has(PK(Fa, t)[j])
                  ok == /\ \A j \in 1..Len(DF(Fa, t)) : has(DF(Fa, t)[j])
                        /\ pkcols \/ isidx
                        /\ x.form = "series" => Len(DF(Fa, t)) = 1
                  val(i, f) == IF InSeq(cols, f) THEN x.rows[i][PosIn(cols, f)]
                               ELSE IF dflt(f) THEN DefaultOf(Fa, t, f)[1]
                               ELSE x.rows[i][Len(cols) + PosIn(x.idx, f)]
              IN IF ok THEN finish([i \in 1..Len(x.rows) |-> TLCEval([j \in 1..Len(Fields(Fa, t)) |-> val(i, Fields(Fa, t)[j])])],
                                   Len(x.rows))
                 ELSE Refused

BuildPan(Fa, x) ==
    LET t == x.t
        fl == Fields(Fa, t)
        extras(cols) == SelectSeq(cols, LAMBDA c : ~InSeq(fl, c))
    IN CASE x.form = "none" -> TabResult(TRUE, <<>>, <<>>, 0)
         [] Tab(Fa, t).kind = "generic" -> BuildGeneric(Fa, x)
         [] x.form \in {"df", "dictlist", "dicts"} ->
              LET pk == PK(Fa, t)
                  isidx == Len(pk) > 0 /\ Range(pk) = Range(x.idx) /\ ~(\E j \in 1..Len(pk) : InSeq(x.cols, pk[j]))
                  dflt(f) == DefaultOf(Fa, t, f) # <<>>
                  has(f) == InSeq(x.cols, f) \/ (isidx /\ InSeq(x.idx, f))
                  val(i, f) == IF InSeq(x.cols, f) THEN x.rows[i][PosIn(x.cols, f)]
                               ELSE IF isidx /\ InSeq(x.idx, f) THEN x.rows[i][Len(x.cols) + PosIn(x.idx, f)]
                               ELSE DefaultOf(Fa, t, f)[1]
              IN IF \A j \in 1..Len(fl) : has(fl[j]) \/ dflt(fl[j])
                 THEN TabResult(TRUE, [i \in 1..Len(x.rows) |-> TLCEval([j \in 1..Len(fl) |-> val(i, fl[j])])],
                                extras(x.cols), Len(x.rows))
                 ELSE Refused
         [] x.form = "listlist" ->      \* positional; x.cols holds as many names as there are columns
              IF x.rows = <<>> THEN TabResult(TRUE, <<>>, <<>>, 0)
              ELSE IF Len(x.cols) < Len(fl) THEN Refused
              ELSE TabResult(TRUE, [i \in 1..Len(x.rows) |-> SubSeq(x.rows[i], 1, Len(fl))],
                             [j \in 1..(Len(x.cols) - Len(fl)) |-> x.cols[Len(fl) + j]], Len(x.rows))

BuildObj(Fa, fl, ins) ==
    IF \E i \in 1..Len(ins) : ~HasTab(Fa, ins[i].t) THEN [ok |-> FALSE, lost |-> FALSE, tabs |-> <<>>]
    ELSE LET one(x) == IF fl = "tic" THEN BuildTic(Fa, x) ELSE BuildPan(Fa, x)
             res == TLCEval([i \in 1..Len(ins) |-> one(ins[i])])
             given(t) == {i \in 1..Len(ins) : ins[i].t = t}
             tab(t) == IF given(t) = {} THEN [t |-> t, rows |-> <<>>, cols |-> <<>>]
                       ELSE LET q == res[CHOOSE i \in given(t) : TRUE] IN [t |-> t, rows |-> q.rows, cols |-> q.cols]
             ok == \A i \in 1..Len(res) : res[i].ok
             lost == fl = "tic" /\ \E i \in 1..Len(res) : res[i].ok /\ Tab(Fa, ins[i].t).kind = "std" /\ Len(res[i].rows) < res[i].n
         IN [ok |-> ok, lost |-> lost,
             tabs |-> IF ok THEN [i \in 1..Len(Fa.tables) |-> tab(Fa.tables[i].t)] ELSE <<>>]

\* complex foreign keys forbid links
LinkRefused(Fa, e) == e.links /\ Len(e.ins) > 0 /\ \E i \in 1..Len(Fa.fks) : ~SimpleFK(Fa, Fa.fks[i])

---------------------------------------------------------------------------
(* Edits of dict-flavoured tables: [op, o, t, e, k, kt, r, i, fld, v].  Result [ok, rows]. *)
KeyIdx(Fa, t, rows, k) == {i \in 1..Len(rows) : KeyOf(Fa, t, rows[i]) = NormSeq(k)}
InsertAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
Res(ok, rows) == [ok |-> ok, rows |-> rows]
RECURSIVE PutAll(_, _, _, _)
Put(Fa, t, rows, row) ==
    LET S == KeyIdx(Fa, t, rows, SubSeq(row, 1, Len(PK(Fa, t))))
    IN IF S = {} THEN Append(rows, row)
       ELSE [rows EXCEPT ![CHOOSE i \in S : TRUE] = SubSeq(@, 1, Len(PK(Fa, t))) \o SubSeq(row, Len(PK(Fa, t)) + 1, Len(row))]
PutAll(Fa, t, rows, new) == IF new = <<>> THEN rows ELSE PutAll(Fa, t, Put(Fa, t, rows, new[1]), Tail(new))
DefaultRow(Fa, t) == [j \in 1..Len(DF(Fa, t)) |-> Def0(Fa, t, DF(Fa, t)[j])]

EditKeyed(Fa, t, rows, e, frozen) ==
    LET S == IF Len(e.k) = Len(PK(Fa, t)) THEN KeyIdx(Fa, t, rows, e.k) ELSE {}
        i == CHOOSE j \in S : TRUE
        dv == DataVals(Fa, t, e.r)
        drop == Drop(rows, S)
    IN CASE e.e = "get" -> IF S # {} THEN Res(TRUE, rows)
                           ELSE IF frozen \/ ~KeyOK(Fa, t, e) THEN Res(FALSE, rows)
                           ELSE Res(TRUE, Append(rows, e.k \o DefaultRow(Fa, t)))
         [] frozen -> Res(FALSE, rows)
         [] e.e = "set" -> IF KeyOK(Fa, t, e) /\ dv.ok THEN Res(TRUE, Put(Fa, t, rows, e.k \o dv.v)) ELSE Res(FALSE, rows)
         [] e.e = "setdefault" -> IF S # {} THEN Res(TRUE, rows)
                                  ELSE IF KeyOK(Fa, t, e) /\ dv.ok THEN Res(TRUE, Append(rows, e.k \o dv.v)) ELSE Res(FALSE, rows)
         [] e.e \in {"update", "ior"} ->
                LET rs == [j \in 1..Len(e.ent) |-> DataVals(Fa, t, e.ent[j].r)]
                IN IF AllOK(rs) /\ \A j \in 1..Len(e.ent) : KeyOK(Fa, t, e.ent[j])
                   THEN Res(TRUE, PutAll(Fa, t, rows, [j \in 1..Len(e.ent) |-> e.ent[j].k \o rs[j].v]))
                   ELSE Res(FALSE, rows)
         \* tbl[k][f] = v is a look-up, which creates a missing row, followed by a cell assignment
         [] e.e = "cell" -> LET got == IF S # {} THEN rows ELSE Append(rows, e.k \o DefaultRow(Fa, t))
                                at  == IF S # {} THEN i ELSE Len(rows) + 1
                            IN IF ~KeyOK(Fa, t, e) THEN Res(FALSE, rows)
                               ELSE IF InSeq(DF(Fa, t), e.fld) THEN Res(TRUE, [got EXCEPT ![at][Idx(Fa, t, e.fld)] = e.v])
                               ELSE Res(FALSE, got)
         [] e.e \in {"del", "pop"} -> IF S # {} THEN Res(TRUE, drop) ELSE Res(FALSE, rows)
         [] e.e = "popdefault" -> Res(TRUE, drop)
         [] e.e = "clear" -> Res(TRUE, <<>>)
         [] e.e = "popitem" -> IF rows = <<>> THEN Res(FALSE, rows) ELSE Res(TRUE, SubSeq(rows, 1, Len(rows) - 1))
         [] OTHER -> Res(FALSE, rows)

EditListed(Fa, t, rows, e, frozen) ==
    LET dv == DataVals(Fa, t, e.r)
        inb == e.i >= 0 /\ e.i < Len(rows)
        rs == [j \in 1..Len(e.ent) |-> DataVals(Fa, t, e.ent[j].r)]
    IN CASE e.e = "get" -> Res(inb, rows)
         [] frozen -> Res(FALSE, rows)
         [] e.e = "append" -> IF dv.ok THEN Res(TRUE, Append(rows, dv.v)) ELSE Res(FALSE, rows)
         [] e.e = "insert" -> IF dv.ok THEN Res(TRUE, InsertAt(rows, e.i, dv.v)) ELSE Res(FALSE, rows)
         [] e.e = "set" -> IF dv.ok /\ inb THEN Res(TRUE, [rows EXCEPT ![e.i + 1] = dv.v]) ELSE Res(FALSE, rows)
         [] e.e = "extend" -> IF AllOK(rs) THEN Res(TRUE, rows \o Vals(rs)) ELSE Res(FALSE, rows)
         [] e.e = "cell" -> IF inb /\ InSeq(DF(Fa, t), e.fld)
                            THEN Res(TRUE, [rows EXCEPT ![e.i + 1][Idx(Fa, t, e.fld)] = e.v]) ELSE Res(FALSE, rows)
         [] e.e \in {"del", "pop"} -> IF inb THEN Res(TRUE, Drop(rows, {e.i + 1})) ELSE Res(FALSE, rows)
         [] e.e = "clear" -> Res(TRUE, <<>>)
         [] OTHER -> Res(FALSE, rows)

EditRes(F, O, e) ==
    LET Fa == FacOf(F, O, e)
        rows == Rows(O[e.o].tabs, e.t)
    IN IF e.e \in {"setattr", "delattr", "rowattr", "tabattr", "unfreeze", "linkset", "linkdel", "linkclear", "linkmiss", "linkpop", "linkupdate", "linkdefault",
                 "linkattr", "linkrow"}
       THEN Res(FALSE, rows)        \* only issued on frozen objects
       ELSE IF Len(PK(Fa, e.t)) > 0 THEN EditKeyed(Fa, e.t, rows, e, O[e.o].frozen)
       ELSE EditListed(Fa, e.t, rows, e, O[e.o].frozen)
EditPost(F, O, e) == SetRows(O[e.o].tabs, e.t, EditRes(F, O, e).rows)
\* what a look-up answers
GetRow(F, O, e) ==
    LET Fa == FacOf(F, O, e)
        rows == EditRes(F, O, e).rows
        n == Len(PK(Fa, e.t))
    IN IF n = 0 THEN rows[e.i + 1]
       ELSE LET row == rows[CHOOSE i \in KeyIdx(Fa, e.t, rows, e.k) : TRUE] IN SubSeq(row, n + 1, Len(row))

---------------------------------------------------------------------------
(* Object checks: [op, f, ins, mode]; every table input is an attribute of the object *)
GoodTable(Fa, x, strict) ==
    LET t == x.t
        n == Len(PK(Fa, t))
        exact(r) == r.kind = "dict" /\ Len(r.cells) = Len(DF(Fa, t)) /\ \A f \in Range(DF(Fa, t)) : CellOf(r, f) # {}
        okrow(r) == IF strict THEN exact(r) ELSE DataVals(Fa, t, r).ok
    IN CASE Tab(Fa, t).kind = "generic" -> x.form = "df"
         [] Tab(Fa, t).kind = "gen" /\ x.form \notin {"list", "gen"} -> FALSE
         [] Tab(Fa, t).kind # "gen" /\ x.form = "gen" -> FALSE
         [] x.form = "df" -> FALSE
         [] x.form = "series" -> ~strict /\ Len(DF(Fa, t)) = 1 /\ (n > 0 => x.idx = PK(Fa, t))
         [] x.form = "dict" -> /\ n > 0
                               /\ \A i \in 1..Len(x.ent) : KeyOK(Fa, t, x.ent[i]) /\ okrow(x.ent[i].r)
         [] x.form \in {"list", "gen"} ->
               IF n = 0 THEN \A i \in 1..Len(x.ent) : okrow(x.ent[i].r)
               ELSE ~strict /\ DF(Fa, t) = <<>> /\ \A i \in 1..Len(x.ent) :
                        LET r == x.ent[i].r
                        IN CASE r.kind = "scalar" -> n = 1
                             [] r.kind = "dict" -> Len(r.cells) = n /\ \A f \in Range(PK(Fa, t)) : CellOf(r, f) # {}
                             [] OTHER -> Len(r.vals) = n
         [] OTHER -> FALSE
GoodObj(Fa, fl, e) ==
    /\ \A t \in TabNames(Fa) : \E i \in 1..Len(e.ins) : e.ins[i].t = t
    /\ \A i \in 1..Len(e.ins) : HasTab(Fa, e.ins[i].t) =>
          IF fl = "tic" THEN GoodTable(Fa, e.ins[i], e.mode # "generous")
          ELSE /\ e.ins[i].form = "df"
               /\ \A f \in Range(Fields(Fa, e.ins[i].t)) : InSeq(e.ins[i].cols, f)
Declared(Fa, ins) == SelectSeq(ins, LAMBDA x : HasTab(Fa, x.t))

---------------------------------------------------------------------------
(* Foreign key links.  The event lists every link attribute: [t, k, name, one, ent : Seq([k, ck])]  *)
(* where ck is the key under which the very same row object sits in the child table.        *)
Linkable(Fa, fk) == /\ Len(PK(Fa, fk.nt)) > 0 /\ Len(PK(Fa, fk.ft)) > 0
                    /\ SimpleFK(Fa, fk)
LinkFKs(Fa) == {fk \in Range(Fa.fks) : Linkable(Fa, fk)}
LinkEntries(Fa, D, fk, prow) ==    \* expected entries for a parent row
    LET pv == NormSeq(FKForeign(Fa, fk, prow))
        rest == {j \in 1..Len(PK(Fa, fk.nt)) : ~(\E p \in 1..Len(fk.m) : fk.m[p][1] = PK(Fa, fk.nt)[j])}
        keyrest(c) == Pick(SubSeq(c, 1, Len(PK(Fa, fk.nt))), rest)
        kids == {c \in Range(Rows(D, fk.nt)) : NormSeq(FKNative(Fa, fk, c)) = pv}
    IN {[k |-> IF Card(Fa, fk)[1] = "one" THEN <<>> ELSE keyrest(c), ck |-> SubSeq(c, 1, Len(PK(Fa, fk.nt)))] : c \in kids}
LinkClauses(F, O, e) ==
    LET Fa == FacOf(F, O, e)
        D == O[e.o].tabs
        L == e.ret.links
        of(t, N, k) == {i \in 1..Len(L) : L[i].t = t /\ L[i].name = N /\ NormSeq(L[i].k) = NormSeq(k)}
        names(t) == {L[i].name : i \in {j \in 1..Len(L) : L[j].t = t}}
        matches(fk, N) ==
            \A r \in 1..Len(Rows(D, fk.ft)) :
               LET row == Rows(D, fk.ft)[r]
                   exp == LinkEntries(Fa, D, fk, row)
                   got == of(fk.ft, N, SubSeq(row, 1, Len(PK(Fa, fk.ft))))
                   one == Card(Fa, fk)[1] = "one"
               IN IF one
                  THEN IF exp = {} THEN got = {}
                       ELSE /\ Cardinality(got) = 1
                            /\ \A g \in got : L[g].one /\ L[g].ct = fk.nt /\ Range(L[g].ent) = exp
                  ELSE /\ Cardinality(got) = 1
                       /\ \A g \in got : /\ ~L[g].one
                                         /\ L[g].ct \in {fk.nt, ""}
                                         /\ Range(L[g].ent) = exp /\ Len(L[g].ent) = Cardinality(exp)
        parents == {fk.ft : fk \in LinkFKs(Fa)}
        \* one-to-one links only exist on rows with a child
        visible(fk) == Card(Fa, fk)[1] # "one" \/ \E row \in Range(Rows(D, fk.ft)) : LinkEntries(Fa, D, fk, row) # {}
        fksof(t) == {fk \in LinkFKs(Fa) : fk.ft = t /\ visible(fk)}
        alone(fk) == \A g \in LinkFKs(Fa) : g = fk \/ g.nt # fk.nt \/ g.ft # fk.ft
    IN IF ~e.ret.ok THEN {"links.raise"}
       ELSE Bad(<< <<"links.tables", \A i \in 1..Len(L) : L[i].t \in parents>>,
                   <<"links.join", \A t \in parents : \A fk \in fksof(t) : \E N \in names(t) \cup {""} :
                                       matches(fk, N) /\ (Rows(D, t) = <<>> \/ (N # "" /\ (alone(fk) => N = fk.nt)))>>,
                   <<"links.extra", \A t \in parents : Cardinality(names(t)) <= Cardinality(fksof(t))>> >>)

---------------------------------------------------------------------------
(* Conversions: what the converted tables hold *)
NoRowsFor(Fa, D) == D
ConvTabs(Fa, D, fl2) ==     \* extra columns do not survive a conversion to rows
    [i \in 1..Len(D) |-> IF Tab(Fa, D[i].t).kind = "generic" THEN D[i] ELSE [D[i] EXCEPT !.cols = <<>>]]
DupLost(Fa, D) == \E i \in 1..Len(D) : Tab(Fa, D[i].t).kind = "std" /\ Len(PK(Fa, D[i].t)) > 0 /\
                     \E a, b \in 1..Len(D[i].rows) : a < b /\ KeyOf(Fa, D[i].t, D[i].rows[a]) = KeyOf(Fa, D[i].t, D[i].rows[b])
DedupeTabs(Fa, D) == [i \in 1..Len(D) |->
    IF Tab(Fa, D[i].t).kind = "std" /\ Len(PK(Fa, D[i].t)) > 0
    THEN [D[i] EXCEPT !.rows = TLCEval(Dedupe(@, Len(PK(Fa, D[i].t)), <<>>))] ELSE D[i]]
=============================================================================
