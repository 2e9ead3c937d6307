------------------------------- MODULE OpsPg -------------------------------
(* PostgreSQL: the tables a schema turns into, what writing leaves in them under each     *)
(* policy for rows that were there, what reading makes of them.                           *)
(*                                                                                        *)
(* A table of such a store also has nn (NOT NULL), pk, fks : Seq([ft, m]), dfl (what each *)
(* column defaults to); aff holds the column types.  e.active names the boolean column    *)
(* that tells live rows from others.                                                      *)
EXTENDS OpsUtil

Reserved ==
    {"all", "analyse", "analyze", "and", "any", "array", "as", "asc", "asymmetric", "both", "case", "cast",
     "check", "collate", "column", "constraint", "create", "current_catalog", "current_date", "current_role",
     "current_time", "current_timestamp", "current_user", "default", "deferrable", "desc", "distinct", "do",
     "else", "end", "except", "false", "fetch", "for", "foreign", "from", "grant", "group", "having", "in",
     "initially", "intersect", "into", "lateral", "leading", "limit", "localtime", "localtimestamp", "not", "null",
     "offset", "on", "only", "or", "order", "placing", "primary", "references", "returning", "select",
     "session_user", "some", "symmetric", "table", "then", "to", "trailing", "true", "union", "unique", "user",
     "using", "variadic", "when", "where", "window", "with"}

Pg(lx, n) == lx[n].pg
PgBadNames(Fa, lx) ==
    \E t \in TabNames(Fa) : \/ Pg(lx, t) # t
                            \/ LET fs == Fields(Fa, t) IN \E i \in 1..Len(fs) : \/ lx[fs[i]].low \in Reserved
                                                                             \/ \E j \in 1..Len(fs) : j # i /\ Pg(lx, fs[i]) = Pg(lx, fs[j])
PgTabs(s, t) == {i \in 1..Len(s.tabs) : s.tabs[i].name = t}
PgHas(s, t) == PgTabs(s, t) # {}
PgTab(s, t) == s.tabs[CHOOSE i \in PgTabs(s, t) : TRUE]
NoUnset == V("unset", 0, "")

---------------------------------------------------------------------------
(* Schemas *)
PgTypes == {"text", "integer", "float", "bool", "boolean", "timestamp", "date", "bytea"}
ForcedAt(e, t, f) == {i \in 1..Len(e.forced) : e.forced[i][1] = t /\ e.forced[i][2] = f}
Forced(e, t, f) == LET i == CHOOSE i \in ForcedAt(e, t, f) : TRUE IN IF e.forced[i][3] = "boolean" THEN "bool" ELSE e.forced[i][3]
\* types that allow numbers and text at once, or neither, have no column type
Shapeless(T) == ~T.dt /\ (T.num <=> HasStrs(T))
ColType(Fa, e, t, f) ==
    LET T == TypeOf(Fa, t, f)
    IN CASE ForcedAt(e, t, f) # {} -> Forced(e, t, f)
         [] Params(Fa, t) -> "text"
         [] T = <<>> -> IF InSeq(PK(Fa, t), f) THEN "text" ELSE "float"
         [] T[1].dt -> "timestamp"
         [] HasStrs(T[1]) -> "text"
         [] T[1].int -> "integer"
         [] OTHER -> "float"
PgSchemaRefused(Fa, e, lx) ==
    \/ PgBadNames(Fa, lx)
    \/ \E t \in TabNames(Fa) : Tab(Fa, t).kind = "generic"
    \/ \E i \in 1..Len(e.forced) : \/ e.forced[i][3] \notin PgTypes
                                   \/ e.forced[i][1] \notin TabNames(Fa)
                                   \/ ~InSeq(Fields(Fa, e.forced[i][1]), e.forced[i][2])
    \/ \E t \in TabNames(Fa) : \E f \in Range(Fields(Fa, t)) :
          TypeOf(Fa, t, f) # <<>> /\ Shapeless(TypeOf(Fa, t, f)[1]) /\ ForcedAt(e, t, f) = {} /\ ~Params(Fa, t)
\* keys between different tables that go round in a circle
RECURSIVE Reach(_, _)
Reach(K, S) == LET N == S \cup {k.ft : k \in {x \in K : x.nt \in S /\ x.nt # x.ft}} IN IF N = S THEN S ELSE Reach(K, N)
Circular(K) == \E k \in K : k.nt # k.ft /\ k.nt \in Reach(K, {k.ft})
\* the database cannot hold the schema
PgImpossible(Fa, e, old) ==
    LET K == FKSetOf(Fa.fks)
    IN \/ \E t \in TabNames(Fa) : PgHas(old, t)
       \/ e.anc /\ (\/ Circular(K)
                    \/ \E k \in K : \/ {p[2] : p \in k.m} # Range(PK(Fa, k.ft)) \/ Cardinality(k.m) # Len(PK(Fa, k.ft))
                                    \/ \E p \in k.m : (ColType(Fa, e, k.nt, p[1]) = "text") # (ColType(Fa, e, k.ft, p[2]) = "text"))
\* what a column defaults to (unset: not settled)
PgDefault(Fa, e, t, f) ==
    LET c == ColType(Fa, e, t, f)
        v == Def0(Fa, t, f)
        w == WVal(Fa, t, f, v)
    IN CASE InSeq(PK(Fa, t), f) -> IF e.anc THEN Null ELSE NoUnset
         [] c \in {"timestamp", "date", "bytea"} \/ IsDT(Fa, t, f) \/ t = "parameters" -> NoUnset
         [] c = "bool" -> BoolV(CASE IsNull(v) -> FALSE [] IsBool(v) \/ v.k = "num" -> v.n # 0 [] IsStr(v) -> v.s # "" [] OTHER -> TRUE)
         [] IsNull(v) -> Null
         [] v = Str("") -> NoUnset
         [] IsStr(v) -> IF c = "text" THEN v ELSE NoUnset
         [] v.k = "num" -> IF c \in {"float", "integer"} THEN v ELSE NoUnset
         [] v.k = "inf" -> IF c = "float" THEN w ELSE NoUnset
         [] OTHER -> NoUnset
\* defaults that do not fit their column
PgSchemaOpen(Fa, e) ==
    \/ \E t \in TabNames(Fa) : \E f \in Range(Fields(Fa, t)) :
        /\ ~(e.anc /\ InSeq(PK(Fa, t), f))
        /\ LET c == ColType(Fa, e, t, f)
               v == Def0(Fa, t, f)
           IN \/ c \notin {"text", "bool", "bytea"} /\ IsStr(v) /\ v.s # ""
              \/ c \in {"integer", "text", "timestamp", "date"} /\ v.k = "inf"
              \/ c \in {"timestamp", "date"} /\ ~IsDT(Fa, t, f) /\ ~IsNull(v)
              \/ c # "bool" /\ IsBool(v)
    \/ e.anc /\ \E k \in FKSetOf(Fa.fks) : \E p \in k.m : ColType(Fa, e, k.nt, p[1]) # ColType(Fa, e, k.ft, p[2])
MustHave(Fa, e, t, f) == LET T == TypeOf(Fa, t, f) IN T # <<>> /\ ~(T[1].num /\ ~T[1].dt /\ FlagNull(Fa)) /\ ~T[1].null
PgTabFits(Fa, e, lx, t, tab) ==
    LET fs == Fields(Fa, t)
        pk == IF e.anc THEN PK(Fa, t) ELSE <<>>
        at(i) == PosIn(tab.cols, Pg(lx, fs[i]))
        fk == IF e.anc THEN {[ft |-> k.ft, m |-> {<<Pg(lx, p[1]), Pg(lx, p[2])>> : p \in k.m}] : k \in {x \in FKSetOf(Fa.fks) : x.nt = t}} ELSE {}
    IN Bad(<< <<"cols", SameSet(tab.cols, [i \in 1..Len(fs) |-> Pg(lx, fs[i])])>>,
              <<"empty", tab.rows = <<>> >>,
              <<"pk", SameSet(tab.pk, [i \in 1..Len(pk) |-> Pg(lx, pk[i])])>>,
              <<"fks", {[ft |-> tab.fks[i].ft, m |-> Range(tab.fks[i].m)] : i \in 1..Len(tab.fks)} = fk>> >>) \cup
       (IF ~SameSet(tab.cols, [i \in 1..Len(fs) |-> Pg(lx, fs[i])]) THEN {} ELSE
        Bad(<< <<"types", \A i \in 1..Len(fs) : tab.aff[at(i)] = ColType(Fa, e, t, fs[i])>>,
               <<"nulls", \A i \in 1..Len(fs) : tab.nn[at(i)] = (InSeq(pk, fs[i]) \/ (~InSeq(PK(Fa, t), fs[i]) /\ MustHave(Fa, e, t, fs[i]))
                                                                 \/ (~e.anc /\ InSeq(PK(Fa, t), fs[i]) /\ tab.nn[at(i)]))>>,
               <<"defaults", \A i \in 1..Len(fs) : LET d == PgDefault(Fa, e, t, fs[i]) IN d = NoUnset \/ tab.dfl[at(i)] = d>> >>))

---------------------------------------------------------------------------
(* Writing.  e = [o, s, pol : Seq(<<table, policy>>), active, dsn, how] *)
PgUnready(Fa, s, lx, ts) ==     \* the tables are not there as they should be
    \/ ~s.exists
    \/ \E t \in ts : PgHas(s, t) /\ \E f \in Range(Fields(Fa, t)) : ~InSeq(PgTab(s, t).cols, Pg(lx, f))
PolOf(e, t) == LET I == {i \in 1..Len(e.pol) : e.pol[i][1] = t} IN IF I = {} THEN "delete" ELSE e.pol[CHOOSE i \in I : TRUE][2]
PgWriteRefused(Fa, e, s, lx) ==
    \/ PgBadNames(Fa, lx) \/ PgUnready(Fa, s, lx, TabNames(Fa))
    \/ \E t \in TabNames(Fa) : ~PgHas(s, t) \/ Tab(Fa, t).kind \in {"generic", "gen"}
    \/ \E i \in 1..Len(e.pol) : e.pol[i][1] \notin TabNames(Fa) \/ e.pol[i][2] \notin {"delete", "append"}
    \/ e.active # "" /\ lx[e.active].pg # e.active
\* text columns hold the text of whatever is put there
Loose(lx, c) == CASE IsStr(c) /\ Parses(lx, c) -> Float(lx, c)
                  [] IsStr(c) /\ lx[c.s].bl # "" -> BoolV(lx[c.s].bl = "T")
                  [] IsStr(c) /\ lx[c.s].date # "" -> V("date", 0, lx[c.s].date)
                  [] OTHER -> c
PgRow(Fa, e, lx, t, tab, row) ==
    TLCEval([j \in 1..Len(tab.cols) |->
        LET I == {i \in 1..Len(Fields(Fa, t)) : Pg(lx, Fields(Fa, t)[i]) = tab.cols[j]}
        IN IF I # {} THEN LET i == CHOOSE i \in I : TRUE IN WVal(Fa, t, Fields(Fa, t)[i], row[i])
           ELSE IF e.active # "" /\ tab.cols[j] = e.active THEN BoolV(TRUE) ELSE tab.dfl[j]])
PgFits(aff, w) == CASE IsNull(w) -> TRUE [] aff = "text" -> TRUE [] aff = "float" -> IsNum(w) [] aff = "integer" -> IsIntegral(w)
                    [] aff = "bool" -> IsBool(w) [] aff = "timestamp" -> IsDate(w) [] OTHER -> FALSE
PgColOpen(tab, rows, j) == tab.aff[j] = "text" /\ \E i \in 1..Len(rows) : ~IsStr(rows[i][j]) /\ ~IsNull(rows[i][j])
\* rows, comparable: columns of text to which something else was written are compared by what they denote
PgNorm(lx, loose, rows) == TLCEval([i \in 1..Len(rows) |-> [j \in 1..Len(rows[i]) |-> IF j \in loose THEN Loose(lx, rows[i][j]) ELSE rows[i][j]]])
\* everything about one table: old and new raw table, rows written, rows kept
PgPlan(Fa, e, lx, s, t, D) ==
    LET tab == PgTab(s, t)
        rows == Rows(D, t)
        W == TLCEval([i \in 1..Len(rows) |-> PgRow(Fa, e, lx, t, tab, rows[i])])
        loose == {j \in 1..Len(tab.cols) : PgColOpen(tab, W, j)}
        K == IF PolOf(e, t) = "append" THEN tab.rows ELSE <<>>
    IN [t |-> t, tab |-> tab, loose |-> loose, W |-> PgNorm(lx, loose, W), K |-> PgNorm(lx, loose, K), raw |-> W]
PgKeyOf(tab, row) == [j \in 1..Len(tab.pk) |-> row[PosIn(tab.cols, tab.pk[j])]]
PgDup(p) == LET all == p.K \o p.W IN p.tab.pk # <<>> /\ \E i, j \in 1..Len(all) : i < j /\ PgKeyOf(p.tab, all[i]) = PgKeyOf(p.tab, all[j])
PgNullBad(p) == \E i \in 1..Len(p.W) : \E j \in 1..Len(p.tab.cols) : (p.tab.nn[j] \/ InSeq(p.tab.pk, p.tab.cols[j])) /\ IsNull(p.W[i][j])
PgInfBad(p) == \E i \in 1..Len(p.raw) : \E j \in 1..Len(p.tab.cols) : p.tab.aff[j] = "integer" /\ p.raw[i][j].k = "inf"
\* does some row of child refer to nothing in rows of the parent ?
Dangling(fk, ctab, crows, ptab, prows) ==
    \E i \in 1..Len(crows) :
        LET want == [k \in 1..Len(fk.m) |-> crows[i][PosIn(ctab.cols, fk.m[k][1])]]
        IN /\ \A k \in 1..Len(want) : ~IsNull(want[k])
           /\ ~\E x \in 1..Len(prows) : \A k \in 1..Len(want) : prows[x][PosIn(ptab.cols, fk.m[k][2])] = want[k]
Refers(fk, ctab, crows) == \E i \in 1..Len(crows) : \A k \in 1..Len(fk.m) : ~IsNull(crows[i][PosIn(ctab.cols, fk.m[k][1])])
DbFks(s) == UNION {{[c |-> s.tabs[i].name, fk |-> s.tabs[i].fks[j]] : j \in 1..Len(s.tabs[i].fks)} : i \in 1..Len(s.tabs)}
PgWriteVerdict(Fa, e, lx, s, D) ==   \* "fail" | "ok" | "open"
    LET P == TLCEval([t \in TabNames(Fa) |-> PgPlan(Fa, e, lx, s, t, D)])
        fin(t) == IF t \in TabNames(Fa) THEN P[t].K \o P[t].W ELSE PgTab(s, t).rows
        kept(t) == IF t \in TabNames(Fa) THEN P[t].K ELSE PgTab(s, t).rows
        X == DbFks(s)
        known == {<<k.nt, k.ft>> : k \in FKSetOf(Fa.fks)}
        mixed(x) == \E t \in {x.c, x.fk.ft} \cap TabNames(Fa) : P[t].loose # {}
    IN CASE \E t \in TabNames(Fa) : PgNullBad(P[t]) \/ PgInfBad(P[t]) -> "fail"
         [] \E t \in TabNames(Fa) : PgDup(P[t]) -> IF \E t \in TabNames(Fa) : P[t].loose # {} THEN "open" ELSE "fail"
         [] \E x \in X : ~mixed(x) /\ Dangling(x.fk, PgTab(s, x.c), fin(x.c), PgTab(s, x.fk.ft), fin(x.fk.ft)) -> "fail"
         [] \E x \in X : x.c # x.fk.ft /\ x.fk.ft \in TabNames(Fa) /\ PolOf(e, x.fk.ft) = "delete" /\ Refers(x.fk, PgTab(s, x.c), kept(x.c))
               /\ (x.c \notin TabNames(Fa) \/ PolOf(e, x.c) = "append") -> "fail"
         [] \/ \E t \in TabNames(Fa) : \E i \in 1..Len(P[t].raw) : \E j \in 1..Len(P[t].tab.cols) : ~PgFits(P[t].tab.aff[j], P[t].raw[i][j])
            \/ \E x \in X : mixed(x)
            \/ \E x \in X : x.c = x.fk.ft /\ Refers(x.fk, PgTab(s, x.c), fin(x.c))
            \/ \E x \in X : x.c # x.fk.ft /\ <<x.c, x.fk.ft>> \notin known /\ x.fk.ft \in TabNames(Fa) /\ (Refers(x.fk, PgTab(s, x.c), fin(x.c)) \/ Refers(x.fk, PgTab(s, x.c), PgTab(s, x.c).rows))
            \/ Circular(FKSetOf(Fa.fks)) -> "open"
         [] OTHER -> "ok"
PgFitsAll(P) == \A i \in 1..Len(P.raw) : \A j \in 1..Len(P.tab.cols) : PgFits(P.tab.aff[j], P.raw[i][j])
\* after success: exactly the rows kept and the rows written
PgWrote(Fa, e, lx, s, n, D) ==
    \A t \in TabNames(Fa) :
        LET p == PgPlan(Fa, e, lx, s, t, D)
        IN /\ PgHas(n, t)
           /\ LET x == PgTab(n, t)
              IN /\ [x EXCEPT !.rows = <<>>] = [p.tab EXCEPT !.rows = <<>>]
                 /\ PgFitsAll(p) => Bag(PgNorm(lx, p.loose, x.rows)) = Bag(p.K \o p.W)
\* a write that was asked to stop after n tables: those and the tables they refer to are complete, the others hold the rows kept
PgWroteSome(Fa, e, lx, s, n, D, k) ==
    \E Done \in SUBSET TabNames(Fa) :
        /\ Cardinality(Done) = k
        /\ ~Circular(FKSetOf(Fa.fks)) => \A x \in FKSetOf(Fa.fks) : x.nt \in Done => x.ft \in Done
        /\ \A t \in TabNames(Fa) :
            LET p == PgPlan(Fa, e, lx, s, t, D)
                x == PgTab(n, t)
            IN /\ PgHas(n, t)
               /\ [x EXCEPT !.rows = <<>>] = [p.tab EXCEPT !.rows = <<>>]
               /\ PgFitsAll(p) => Bag(PgNorm(lx, p.loose, x.rows)) = Bag(IF t \in Done THEN p.K \o p.W ELSE p.K)
\* a Progress hears of every table, a context manager surrounds the writing of its table
PgProgress(Fa, e, fl) ==
    LET c == e.ret.calls
        n == IF e.prog > 0 /\ e.prog < Len(Fa.tables) THEN e.prog ELSE Len(Fa.tables)
    IN Bad(<< <<"pg.write.progress", /\ \A i \in 1..Len(c) : c[i] >= 0 /\ c[i] <= 100000 /\ (i > 1 => c[i - 1] <= c[i])
                                     /\ fl = "tic" \/ e.prog < 0 => c = <<>>
                                     /\ Len(c) <= n
                                     /\ (e.ret.ok /\ fl = "pan" /\ e.prog >= 0) => Len(c) = n>>,
              <<"pg.write.managers", /\ SameSet(e.ret.ins, e.ret.outs) /\ Len(e.ret.ins) = Len(e.ret.outs)
                                     /\ fl = "tic" => e.ret.ins = <<>>
                                     /\ \A i, j \in 1..Len(e.ret.ins) : i # j => e.ret.ins[i] # e.ret.ins[j]
                                     /\ Range(e.ret.ins) \subseteq Range(e.ctx)
                                     /\ (e.ret.ok /\ fl = "pan" /\ n = Len(Fa.tables)) => Range(e.ret.ins) = Range(e.ctx)>> >>)
\* after failure: nothing but rows that were there or were to be written
PgPartial(Fa, e, lx, s, n, D) ==
    \A t \in TabNames(Fa) :
        LET p == PgPlan(Fa, e, lx, s, t, D)
            x == PgTab(n, t)
        IN /\ PgHas(n, t)
           /\ PgFitsAll(p) => Range(PgNorm(lx, p.loose, x.rows)) \subseteq Range(PgNorm(lx, p.loose, p.tab.rows)) \cup Range(p.W)
           /\ PolOf(e, t) = "append" => Len(x.rows) >= Len(p.tab.rows)
PgRest(Fa, s, n) == /\ Len(s.tabs) = Len(n.tabs)
                    /\ \A i \in 1..Len(s.tabs) : s.tabs[i].name \in TabNames(Fa) \/ n.tabs[i] = s.tabs[i]

---------------------------------------------------------------------------
(* Reading: the store as if it were a plain file of tables *)
PgLive(e, tab) == LET c == PosIn(tab.cols, e.active) IN
    IF e.active # "" /\ InSeq(tab.cols, e.active) THEN SelectSeq(tab.rows, LAMBDA r : r[c] = BoolV(TRUE)) ELSE tab.rows
PgView(Fa, e, s, lx) ==
    LET ts == SelectSeq(Fa.tables, LAMBDA x : PgHas(s, x.t))
        rows(t) == PgLive(e, PgTab(s, t))
        cell(t, i, f) == rows(t)[i][PosIn(PgTab(s, t).cols, Pg(lx, f))]
    IN [s EXCEPT !.tabs = TLCEval([k \in 1..Len(ts) |->
          LET t == ts[k].t
              fs == Fields(Fa, t)
          IN [name |-> t, form |-> "cols", cols |-> fs, aff |-> <<>>,
              rows |-> [i \in 1..Len(rows(t)) |-> [j \in 1..Len(fs) |-> cell(t, i, fs[j])]]]])]
PgReadRefused(Fa, e, s, lx) ==
    \/ PgBadNames(Fa, lx) \/ PgUnready(Fa, s, lx, TabNames(Fa))
    \/ \E t \in TabNames(Fa) : Tab(Fa, t).kind \in {"generic", "gen"}
    \/ e.active # "" /\ lx[e.active].pg # e.active
PgTabRead(Fa, fl, a, x) ==
    LET keyed == fl = "tic" /\ Len(PK(Fa, x.t)) > 0
        key(r) == NormSeq(SubSeq(r, 1, Len(PK(Fa, x.t))))
        settled == \A i \in 1..Len(x.rows) : \A j \in 1..Len(x.rows[i]) : ~IsU(x.rows[i][j])
    IN IF ~settled THEN keyed \/ Len(a.rows) = Len(x.rows)
       ELSE IF keyed THEN /\ Range(a.rows) \subseteq Range(x.rows)      \* of rows with the same key one survives
                          /\ {key(a.rows[i]) : i \in 1..Len(a.rows)} = {key(x.rows[i]) : i \in 1..Len(x.rows)}
       ELSE Bag(a.rows) = Bag(x.rows)
\* what survives the trip, stated on its own
PgRep(Fa, lx, aff, t, f, v, k) ==
    LET pt == PType(Fa, k)
        ptnum == pt = <<>> \/ pt[1].num
    IN IF Params(Fa, t) /\ f = Fields(Fa, t)[2]
       THEN CASE IsStr(v) -> ~(ptnum /\ Parses(lx, v)) /\ ~(pt # <<>> /\ pt[1].dt /\ AsDate(lx, v) # NoV) /\ ~(v.s = "" /\ pt # <<>> /\ pt[1].null /\ ~Valid(pt[1], v))
              [] IsNum(v) -> ptnum
              [] IsDate(v) -> pt # <<>> /\ pt[1].dt
              [] IsNull(v) -> TRUE
              [] OTHER -> FALSE
       ELSE CASE IsNull(v) -> t = "parameters" \/ Bias(Fa, t, f) = <<>>
              [] IsStr(v) -> aff = "text" /\ (t = "parameters" \/ (~(IsMulti(Fa, t, f) /\ Parses(lx, v)) /\ ~(IsDT(Fa, t, f) /\ AsDate(lx, v) # NoV)))
              [] v.k = "num" -> (aff = "float" \/ (aff = "integer" /\ IsIntegral(v))) /\ (t # "parameters" /\ FlagNum(Fa) => NumLt(v, Fa.inf) /\ NumLt(Neg(Fa.inf), v))
              [] v.k = "inf" -> aff = "float" \/ (FlagNull(Fa) /\ Bias(Fa, t, f) = <<v>>) \/ (FlagNum(Fa) /\ aff = "integer" /\ IsIntegral(Fa.inf) /\ t # "parameters")
              [] IsBool(v) -> aff = "bool" /\ ~IsMulti(Fa, t, f) /\ ~IsDT(Fa, t, f)
              [] IsDate(v) -> aff = "timestamp"
              [] OTHER -> FALSE
PgRepTab(Fa, lx, s, tab) ==
    LET flds == Fields(Fa, tab.t)
        raw == PgTab(s, tab.t)
    IN PgHas(s, tab.t) /\ \A i \in 1..Len(tab.rows) : \A j \in 1..Len(flds) :
          PgRep(Fa, lx, raw.aff[PosIn(raw.cols, Pg(lx, flds[j]))], tab.t, flds[j], tab.rows[i][j], tab.rows[i][1])
=============================================================================
