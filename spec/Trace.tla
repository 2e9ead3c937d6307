------------------------------- MODULE Trace -------------------------------
(* Total trace checker: every recorded event of the real library is compared with the     *)
(* specification's transition for the same operation in the same abstract state.  A       *)
(* mismatch is reported with the names of the failing clauses and the state is            *)
(* re-synchronised with the recorded one, so that the rest of the trace is still checked. *)
EXTENDS OpsAmpl, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VP_TRACES)

VARIABLES tr,   \* which trace
          l,    \* number of events consumed
          F,    \* factories
          O,    \* data objects
          St,   \* stores (files)
          G     \* what projections cannot show: which factories were used, link settings, keys before implication
vars == <<tr, l, F, O, St, G>>

Ev == Traces[tr].ev[l + 1]

\* bookkeeping: re-synchronise with the projections that changed
Upd(f, s) == TLCEval([x \in DOMAIN f \cup {s[i].id : i \in 1..Len(s)} |->
                 IF \E i \in 1..Len(s) : s[i].id = x THEN s[CHOOSE i \in 1..Len(s) : s[i].id = x] ELSE f[x]])

ChangedO(e) == {e.objs[i].id : i \in 1..Len(e.objs)}
ChangedS(e) == {e.stores[i].id : i \in 1..Len(e.stores)}
ChangedF(e) == {e.facs[i].id : i \in 1..Len(e.facs)}
NewF(e, f) == IF f \in ChangedF(e) THEN e.facs[CHOOSE i \in 1..Len(e.facs) : e.facs[i].id = f] ELSE F[f]
NewO(e, o) == IF o \in ChangedO(e) THEN e.objs[CHOOSE i \in 1..Len(e.objs) : e.objs[i].id = o] ELSE O[o]
NoStore(e) == [id |-> e.s, fmt |-> e.fmt, exists |-> FALSE, hdr |-> TRUE, schema |-> FALSE, tabs |-> <<>>, shape |-> "ok", fp |-> "absent"]
OldS(e) == IF e.s \in DOMAIN St THEN St[e.s] ELSE NoStore(e)
NewS(e) == IF e.s \in ChangedS(e) THEN e.stores[CHOOSE i \in 1..Len(e.stores) : e.stores[i].id = e.s] ELSE OldS(e)

SameTabs(Fa, fl, A, B) ==   \* equality of data: key order is irrelevant for dict tables
    /\ Len(A) = Len(B)
    /\ \A i \in 1..Len(A) :
         /\ A[i].t = B[i].t
         /\ \/ A[i].rows = B[i].rows
            \/ /\ fl = "tic" /\ Len(PK(Fa, A[i].t)) > 0
               /\ Len(A[i].rows) = Len(B[i].rows)
               /\ Range(A[i].rows) = Range(B[i].rows)

\* the state after the event, for object o, equals the expected tables
PostTabs(e, o, tabs) == /\ NewO(e, o).shape = "ok"
                        /\ SameTabs(F[O[o].fac], O[o].fl, NewO(e, o).tabs, tabs)

\* objects and factories an event may change
MayChangeO(e) == CASE e.op \in {"mk", "build", "args"} -> {e.o}
                   [] e.op \in {"removefk", "replacedt", "setcell", "edit", "panedit", "rawedit", "freeze"} -> {e.o}
                   [] e.op \in {"copy", "convert", "good", "read", "obf", "main", "pgread", "fromampl"} -> {e.o2}
                   [] OTHER -> {}
MayChangeF(e) == CASE e.op \in {"mkfac", "newfac", "decl"} -> {e.f}
                   [] e.op \in {"import", "clone", "cloneedit"} -> {e.f2}
                   [] OTHER -> {}
MayChangeS(e) == CASE e.op \in {"put", "write", "pgschema", "pgput", "pgwrite", "mdbschema"} -> {e.s} [] e.op = "main" -> {e.s2, e.s3} [] OTHER -> {}
EditOps == {"mk", "build", "args", "removefk", "replacedt", "setcell", "edit", "panedit", "rawedit", "freeze", "scribble"}
FacOps == {"mkfac", "newfac", "decl", "import", "clone", "cloneedit"}
FrameClauses(e) ==
    LET o == ChangedO(e) \subseteq MayChangeO(e)
        f == ChangedF(e) \subseteq MayChangeF(e)
    IN Bad(<< <<"frame.edit", e.op \in EditOps => o>>,          \* an edit is visible nowhere else
              <<"frame.decl", e.op \in FacOps => (o /\ f)>>,   \* a declaration is visible nowhere else
              <<"frame.read", e.op \notin (EditOps \cup FacOps) => o>>,
              <<"frame.fac",  e.op \notin FacOps => f>>,
              <<"frame.store", ChangedS(e) \subseteq MayChangeS(e)>> >>)

HasNew(e, o) == o \in ChangedO(e)
\* the (new) object o holds exactly these tables
NewIs(e, f, o, tabs) == /\ HasNew(e, o) \/ o \in DOMAIN O
                        /\ NewO(e, o).shape = "ok"
                        /\ SameTabs(F[f], NewO(e, o).fl, NewO(e, o).tabs, tabs)
NoNew(e, o) == o \notin ChangedO(e)

\* factories that make links cannot build data sets under foreign keys that do not refer to primary keys
LinkTrouble(f) == f \in G.links /\ \E i \in 1..Len(F[f].fks) : ~SimpleFK(F[f], F[f].fks[i])
\* two keys that link the same fields of one table to another one: which link wins is not settled
NatSet(k) == {k.m[i][1] : i \in 1..Len(k.m)}
LinkClash(f) == f \in G.links /\ LET K == F[f].fks IN
    \E i, j \in 1..Len(K) : i # j /\ K[i].nt = K[j].nt /\ K[i].ft = K[j].ft /\ NatSet(K[i]) = NatSet(K[j])
Used(f) == IF f \in DOMAIN G.used THEN G.used[f] ELSE "no"

\* the factory f after the event is exactly X
FacIs(e, f, X) == f \in ChangedF(e) /\ NewF(e, f).shape = "ok" /\ FacDiff(NewF(e, f), X) = {}
\* the names of the parts in which it is not
FacOff(p, e, f, X) == IF f \in ChangedF(e) /\ NewF(e, f).shape = "ok" THEN {p \o "." \o x : x \in FacDiff(NewF(e, f), X)} ELSE {p \o ".none"}
If(c, S) == IF c THEN S ELSE {}
FacSame(e, f) == f \notin ChangedF(e)
MkfacClauses(e) ==
    Bad(<< <<"mkfac.raise", e.ret.ok>> >>) \cup
           If(e.ret.ok, FacOff("mkfac.effect", e, e.f, FromDesc(e.desc, e.fl)))
NewfacClauses(e) ==
    IF GoodSchema(e.entries)
    THEN Bad(<< <<"newfac.raise", e.ret.ok>> >>) \cup
                If(e.ret.ok, FacOff("newfac.effect", e, e.f, NewFac([i \in 1..Len(e.entries) |-> EntryTab(e.entries[i])])))
    ELSE Bad(<< <<"newfac.refuse", ~e.ret.ok /\ FacSame(e, e.f)>> >>)
ImportClauses(e) ==
    IF ImportRefused(e) THEN Bad(<< <<"import.refuse", ~e.ret.ok /\ FacSame(e, e.f2)>> >>)
    ELSE Bad(<< <<"import.raise", e.ret.ok>> >>) \cup
                If(e.ret.ok, FacOff("import.equal", e, e.f2, ImportFac(F[e.f], e)))
CloneClauses(e) ==
    LET bad == \E i \in 1..Len(e.restrict) : ~HasTab(F[e.f], e.restrict[i])
    IN IF bad THEN Bad(<< <<"clone.refuse", ~e.ret.ok /\ FacSame(e, e.f2)>> >>)
       ELSE LET p == IF e.restrict = <<>> THEN "clone" ELSE "restrict"
            IN Bad(<< <<p \o ".raise", e.ret.ok>> >>) \cup
               If(e.ret.ok, FacOff(p \o ".equal", e, e.f2, CloneFac(F[e.f], F[e.f].fl, e)))
CloneEditClauses(e) ==
    LET r == EditFac(F[e.f], e)
    IN IF ~r.ok THEN Bad(<< <<"cloneedit.refuse", ~e.ret.ok /\ FacSame(e, e.f2)>> >>)
       ELSE Bad(<< <<"cloneedit.raise", e.ret.ok>> >>) \cup
                   If(e.ret.ok, FacOff("cloneedit.effect", e, e.f2, r.fac))

\* with the keys that were declared before implied ones were added
BaseFac(f) == [F[f] EXCEPT !.fks = G.base[f]]
ImpliedVerdict(e) ==
    IF e.op \notin {"findfk", "removefk"} \/ O[e.o].fac \notin DOMAIN G.base THEN {}
    ELSE IF e.op = "findfk"
    THEN Bad(<< <<"implied.verdict", e.ret.ok => ((Len(e.ret.fks) > 0) <=> HasFKFailures(BaseFac(O[e.o].fac), O[e.o].tabs))>> >>)
    ELSE IF e.prop = "no" THEN {}
    ELSE Bad(<< <<"implied.removal", PostTabs(e, e.o, RemoveAll(BaseFac(O[e.o].fac), O[e.o].tabs))>> >>)

BuildClauses(e) ==
    LET Fa == F[e.f]
        b == BuildObj(Fa, Fa.fl, e.ins)
        refuse == ~b.ok \/ (LinkTrouble(e.f) /\ Len(e.ins) > 0)
    IN IF refuse THEN Bad(<< <<"build.refuse", ~e.ret.ok /\ NoNew(e, e.o)>> >>)
       ELSE IF b.lost /\ Fa.dups = "assert" THEN Bad(<< <<"dups.assert", ~e.ret.ok /\ NoNew(e, e.o)>> >>)
       ELSE Bad(<< <<"build.raise", e.ret.ok>>,
                   <<"build.rows", e.ret.ok => NewIs(e, e.f, e.o, b.tabs)>>,
                   <<"build.cols", (e.ret.ok /\ Fa.fl = "pan") => \A i \in 1..Len(b.tabs) : NewO(e, e.o).tabs[i].cols = b.tabs[i].cols>>,
                   <<"dups.said", e.ret.ok => (e.ret.said <=> (b.lost /\ Fa.dups = "warn"))>> >>)

EditClauses(e) ==
    LET r == EditRes(F, O, e)
        p == IF O[e.o].frozen THEN "frozen" ELSE "edit"
    IN Bad(<< <<p \o ".refuse", ~r.ok => ~e.ret.ok>>,
              <<p \o ".raise", r.ok => e.ret.ok>>,
              <<p \o ".rows", PostTabs(e, e.o, EditPost(F, O, e))>>,
              <<p \o ".value", (r.ok /\ e.ret.ok /\ e.e = "get") => e.ret.row = GetRow(F, O, e)>>,
              <<p \o ".same", O[e.o].frozen => e.o \notin ChangedO(e)>> >>)

PanEditPost(e) ==
    LET rows == Rows(O[e.o].tabs, e.t)
        Fa == FacOf(F, O, e)
    IN CASE e.e = "iloc" -> [rows EXCEPT ![e.i + 1][Idx(Fa, e.t, e.fld)] = e.v]
         [] e.e = "drop" -> Drop(rows, {e.i + 1})
         [] OTHER -> rows

GoodClauses(e) ==
    LET Fa == F[e.f]
        g == GoodObj(Fa, Fa.fl, e)
        b == BuildObj(Fa, Fa.fl, Declared(Fa, e.ins))
    IN Bad(<< <<"good.verdict", IF g THEN e.ret.ok /\ e.ret.good ELSE ~(e.ret.ok /\ e.ret.good)>>,
              <<"good.reason", (e.ret.ok /\ ~e.ret.good) => e.ret.msgs > 0>>,
              <<"good.silent", (e.ret.ok /\ e.ret.good) => e.ret.msgs = 0>>,
              <<"good.copy", g => IF b.lost /\ Fa.dups = "assert" THEN NoNew(e, e.o2)
                                  ELSE b.ok /\ HasNew(e, e.o2) /\ NewIs(e, e.f, e.o2, b.tabs)>>,
              <<"good.nocopy", ~g => NoNew(e, e.o2)>> >>)

CopyClauses(e) ==
    IF LinkTrouble(O[e.o].fac) THEN Bad(<< <<"copy.refuse", ~e.ret.ok /\ NoNew(e, e.o2)>> >>)
    ELSE Bad(<< <<"copy.raise", e.ret.ok>>,
           <<"copy.equal", e.ret.ok => NewIs(e, O[e.o].fac, e.o2, O[e.o].tabs)>>,
           <<"copy.cols", (e.ret.ok /\ O[e.o].fl = "pan") => \A i \in 1..Len(O[e.o].tabs) : NewO(e, e.o2).tabs[i].cols = O[e.o].tabs[i].cols>> >>)

ConvertClauses(e) ==
    LET Fa == FacOf(F, O, e)
        D == O[e.o].tabs
        gens == \E t \in TabNames(Fa) : Tab(Fa, t).kind = "gen"
        only(t) == e.restrict = <<>> \/ InSeq(e.restrict, t)
        cut == [i \in 1..Len(D) |-> IF Tab(Fa, D[i].t).kind = "gen" \/ ~only(D[i].t) THEN [D[i] EXCEPT !.rows = <<>>, !.cols = <<>>] ELSE D[i]]
        pure == ConvTabs(Fa, IF e.kind = "topan" THEN cut ELSE D, e.kind)
        lost == e.kind = "totic" /\ DupLost(Fa, pure)
        refuse == (e.kind = "asdict" /\ gens) \/ (e.kind # "topan" /\ LinkTrouble(e.f2))
    IN IF refuse THEN Bad(<< <<"convert.refuse", ~e.ret.ok /\ NoNew(e, e.o2)>> >>)
       ELSE IF lost /\ Fa.dups = "assert" THEN Bad(<< <<"dups.assert", ~e.ret.ok /\ NoNew(e, e.o2)>> >>)
       ELSE Bad(<< <<"convert.raise", e.ret.ok>>,
                   <<"convert.rows", e.ret.ok => NewIs(e, e.f2, e.o2, IF e.kind = "totic" THEN DedupeTabs(Fa, pure) ELSE pure)>>,
                   <<"convert.good", (e.ret.ok /\ e.kind = "topan" /\ e.opt \in {"keep", "reset"} /\ ~gens /\ e.restrict = <<>>) => e.ret.good>>,
                   <<"convert.cols", e.ret.ok => \A i \in 1..Len(pure) : Tab(Fa, pure[i].t).kind = "generic" => NewO(e, e.o2).tabs[i].cols = pure[i].cols>>,
                   <<"dups.said", (e.ret.ok /\ e.kind = "totic") => (e.ret.said <=> (lost /\ Fa.dups = "warn"))>> >>)

---------------------------------------------------------------------------
(* Stores *)
WriteClauses(e) ==
    LET fl == O[e.o].fl
        Fa == FacOf(F, O, e)
        D == O[e.o].tabs
        old == OldS(e)
        new == NewS(e)
        p == IF old.exists THEN "ov" ELSE "w" \o fl
        same == new.exists = old.exists /\ new.fp = old.fp
        w == Written(Fa, fl, e, old, new, D, e.lex)
    IN IF WriteRefused(Fa, fl, e, old, D, e.lex) THEN Bad(<< <<"ov.refuse", ~e.ret.ok>>, <<"ov.same", IF fl = "tic" THEN same ELSE \A i \in 1..Len(old.tabs) : \E j \in 1..Len(new.tabs) : new.tabs[j] = old.tabs[i]>> >>)
       ELSE IF WriteImpossible(Fa, fl, e.fmt, e) THEN Bad(<< <<p \o ".impossible", ~e.ret.ok>>, <<p \o ".same", old.exists => same>> >>)
       ELSE Bad(<< <<p \o ".raise", e.ret.ok>>,
                   <<p \o ".readable", e.ret.ok => new.shape = "ok">>,
                   <<p \o ".tables", e.ret.ok => w.tables>>,
                   <<p \o ".rest", e.ret.ok => w.rest>>,
                   <<p \o ".cells", (e.ret.ok /\ w.tables) => w.cells>> >>)

\* schemas that read alike
Alike(A, B) == FacDiff([A EXCEPT !.fks = <<>>, !.preds = <<>>, !.tips = <<>>, !.dups = "", !.trail = ""],
                       [B EXCEPT !.fks = <<>>, !.preds = <<>>, !.tips = <<>>, !.dups = "", !.trail = ""]) = {}
\* what was written there, all of it representable, comes back
Returns(e) ==
    LET Fa == F[e.f]
        g == G.orig[e.s]
        s == St[e.s]
        form == IF s.tabs = <<>> THEN "lists" ELSE s.tabs[1].form
    IN /\ e.s \in DOMAIN G.orig /\ g.fl = Fa.fl /\ Alike(g.fac, Fa)
       /\ ~(Fa.fl = "tic" /\ s.fmt \in {"xls", "xlsx"} /\ ~e.tinf)
       /\ ~(Fa.fl = "tic" /\ IsSplit(s))
       /\ \A i \in 1..Len(g.tabs) : (Tab(Fa, g.tabs[i].t).kind = "generic" /\ g.tabs[i].rows # <<>>) =>
             \A j \in Matches(s.fmt, e.lex, s.tabs, g.tabs[i].t) : Range(s.tabs[j].cols) = Range(g.tabs[i].cols)
       /\ \A i \in 1..Len(g.tabs) : IF Fa.fl = "tic" THEN RepTicTab(Fa, s.fmt, e.lex, g.tabs[i])
                                     ELSE RepPanTab(Fa, s.fmt, form, e.lex, g.tabs[i])
ReadClauses(e) ==
    LET Fa == F[e.f]
        s == St[e.s]
        R == ReadStore(Fa, Fa.fl, e, s, e.lex)
        p == "r" \o Fa.fl
        rt == e.s \in DOMAIN G.orig /\ Returns(e) /\ ~(LinkTrouble(e.f) \/ (R.ok /\ R.dups /\ Fa.dups = "assert"))
    IN IF ~R.ok THEN Bad(<< <<p \o ".refuse", ~e.ret.ok /\ NoNew(e, e.o2)>> >>)
       ELSE IF LinkTrouble(e.f) THEN {}
       ELSE IF R.dups /\ Fa.dups = "assert" THEN Bad(<< <<"dups.assert", ~e.ret.ok /\ NoNew(e, e.o2)>> >>)
       ELSE Bad(<< <<p \o ".raise", e.ret.ok>>,
                   <<p \o ".rows", e.ret.ok => /\ HasNew(e, e.o2) /\ NewO(e, e.o2).shape = "ok"
                                              /\ TabsFit(Fa, Fa.fl, NewO(e, e.o2).tabs, R.tabs)>>,
                   <<"rt." \o Fa.fl, (rt /\ e.ret.ok) => NewIs(e, e.f, e.o2, G.orig[e.s].tabs)>> >>)
FdupClauses(e) ==
    LET Fa == F[e.f]
        s == St[e.s]
        want == UNION {DupStore(Fa, s, e.lex, t) : t \in {x \in TabNames(Fa) : Len(PK(Fa, x)) > 0}}
        got == {<<e.ret.dups[i].t, NormSeq(e.ret.dups[i].k), e.ret.dups[i].n>> : i \in 1..Len(e.ret.dups)}
    IN IF DupRefused(Fa, s, e.lex) THEN Bad(<< <<"fdup.refuse", ~e.ret.ok>> >>)
       \* files in which tables without primary key are ambiguous may be refused
       ELSE IF ~e.ret.ok /\ \E t \in TabNames(Fa) : Cardinality(Matches(s.fmt, e.lex, s.tabs, t)) > 1 THEN {}
       ELSE Bad(<< <<"fdup.raise", e.ret.ok>>,
                   <<"fdup.exact", e.ret.ok => (got = want /\ Len(e.ret.dups) = Cardinality(want))>> >>)

ObfClauses(e) ==
    LET Fa == FacOf(F, O, e)
        D == O[e.o].tabs
    IN IF ObfRefused(Fa, D, e) THEN Bad(<< <<"obf.refuse", ~e.ret.ok /\ NoNew(e, e.o2)>> >>)
       ELSE IF ObfOpen(Fa, e) /\ ~e.ret.ok THEN Bad(<< <<"obf.none", NoNew(e, e.o2)>> >>)
       ELSE Bad(<< <<"obf.raise", e.ret.ok>>,
                   <<"obf.renamings", e.ret.ok => RenOK(Fa, D, e)>>,
                   <<"obf.rows", (e.ret.ok /\ ~ObfOpen(Fa, e)) => NewIs(e, O[e.o].fac, e.o2, ObfTabs(Fa, D, e))>>,
                   <<"obf.integrity", (e.ret.ok /\ HasNew(e, e.o2) /\ NewO(e, e.o2).shape = "ok") => ~HasFKFailures(Fa, NewO(e, e.o2).tabs)>> >>)
SlicerClauses(e) ==
    IF SlicerRefused(e.rows) THEN Bad(<< <<"slicer.refuse", ~e.ret.ok>> >>) ELSE Bad(<< <<"slicer.raise", e.ret.ok>> >>)
SliceClauses(e) ==
    IF e.id \notin DOMAIN G.sl THEN {}
    ELSE LET rows == G.sl[e.id]
         IN IF rows # <<>> /\ Len(rows[1]) # Len(e.pat) THEN Bad(<< <<"slice.refuse", ~e.ret.ok>> >>)
            ELSE Bad(<< <<"slice.raise", e.ret.ok>>, <<"slice.exact", e.ret.ok => Bag(e.ret.rows) = Bag(Matching(rows, e.pat))>> >>)

\* PostgreSQL
PgSchemaClauses(e) ==
    LET Fa == F[e.f]
        old == OldS(e)
        new == NewS(e)
        mine(x) == x.name \in TabNames(Fa)
        rest == SelectSeq(new.tabs, LAMBDA x : ~mine(x)) = SelectSeq(old.tabs, LAMBDA x : ~mine(x))
    IN IF PgSchemaRefused(Fa, e, e.lex) THEN Bad(<< <<"pg.schema.refuse", ~e.ret.ok>>, <<"pg.schema.same", new.tabs = old.tabs>> >>)
       ELSE IF PgImpossible(Fa, e, old) THEN Bad(<< <<"pg.schema.impossible", ~e.ret.ok>>, <<"pg.schema.rest", rest>> >>)
       ELSE IF PgSchemaOpen(Fa, e) /\ ~e.ret.ok THEN Bad(<< <<"pg.schema.rest", rest>> >>)
       ELSE Bad(<< <<"pg.schema.raise", e.ret.ok>>, <<"pg.schema.rest", rest>>,
                   <<"pg.schema.tables", e.ret.ok => /\ new.exists /\ \A t \in TabNames(Fa) : PgHas(new, t)
                                                     /\ Len(new.tabs) = Len(old.tabs) + Cardinality(TabNames(Fa))>> >>) \cup
            If(e.ret.ok, UNION {{"pg.schema." \o x : x \in PgTabFits(Fa, e, e.lex, t, PgTab(new, t))} : t \in {x \in TabNames(Fa) : PgHas(new, x)}})
PgWriteClauses(e) ==
    LET Fa == FacOf(F, O, e)
        D == O[e.o].tabs
        old == OldS(e)
        new == NewS(e)
    IN IF PgWriteRefused(Fa, e, old, e.lex) THEN Bad(<< <<"pg.write.refuse", ~e.ret.ok>>, <<"pg.write.same", new.tabs = old.tabs /\ new.exists = old.exists>> >>)
       ELSE LET v == PgWriteVerdict(Fa, e, e.lex, old, D)
                stops == e.prog > 0 /\ e.prog < Len(Fa.tables) /\ O[e.o].fl = "pan"
            IN PgProgress(Fa, e, O[e.o].fl) \cup
               IF stops THEN   \* tables that come later are left empty, or as they were
                  Bad(<< <<"pg.write.raise", v = "ok" => e.ret.ok>>,
                         <<"pg.write.rest", PgRest(Fa, old, new)>>,
                         <<"pg.write.stopped", (v # "fail" /\ e.ret.ok) => PgWroteSome(Fa, e, e.lex, old, new, D, e.prog)>>,
                         <<"pg.write.partial", ~e.ret.ok => PgPartial(Fa, e, e.lex, old, new, D)>> >>)
               ELSE Bad(<< <<"pg.write.impossible", v = "fail" => ~e.ret.ok>>,
                      <<"pg.write.raise", v = "ok" => e.ret.ok>>,
                      <<"pg.write.rest", PgRest(Fa, old, new)>>,
                      <<"pg.write.rows", (v # "fail" /\ e.ret.ok) => PgWrote(Fa, e, e.lex, old, new, D)>>,
                      <<"pg.write.partial", ~e.ret.ok => PgPartial(Fa, e, e.lex, old, new, D)>> >>)
PgReadClauses(e) ==
    LET Fa == F[e.f]
        s == St[e.s]
        v == PgView(Fa, e, s, e.lex)
        fl == Fa.fl
        x == [i \in 1..Len(Fa.tables) |->
                LET t == Fa.tables[i].t
                    r == IF ~PgHas(s, t) THEN RES(TRUE, <<>>, <<>>)
                         ELSE LET tab == v.tabs[CHOOSE k \in 1..Len(v.tabs) : v.tabs[k].name = t]
                              IN IF fl = "pan" THEN ReadPanTab(Fa, "pg", e.lex, t, tab, FALSE) ELSE ReadTicTab(Fa, "pg", e.lex, t, tab, TRUE, FALSE)
                IN [t |-> t, rows |-> r.rows, cols |-> <<>>]]
        g == G.orig[e.s]
        back == /\ e.s \in DOMAIN G.orig /\ g.fl = fl /\ Alike(g.fac, Fa)
                /\ \A i \in 1..Len(g.tabs) : PgRepTab(Fa, e.lex, s, g.tabs[i]) /\ PgLive(e, PgTab(s, g.tabs[i].t)) = PgTab(s, g.tabs[i].t).rows
        same(a, b) == \A i \in 1..Len(a) : Bag(a[i].rows) = Bag(b[i].rows)
    IN IF PgReadRefused(Fa, e, s, e.lex) THEN Bad(<< <<"pg.read.refuse", ~e.ret.ok /\ NoNew(e, e.o2)>> >>)
       ELSE IF LinkTrouble(e.f) THEN {}
       ELSE LET seen == e.ret.ok /\ HasNew(e, e.o2) /\ NewO(e, e.o2).shape = "ok"
            IN Bad(<< <<"pg.read.raise", e.ret.ok>>,
                   <<"pg.read.rows", e.ret.ok => /\ seen
                                              /\ \A i \in 1..Len(x) : NewO(e, e.o2).tabs[i].t = x[i].t /\ PgTabRead(Fa, fl, NewO(e, e.o2).tabs[i], x[i])>>,
                   <<"pg.rt", (back /\ seen) => same(NewO(e, e.o2).tabs, g.tabs)>> >>)
PgDupClauses(e) ==
    LET Fa == F[e.f]
        s == St[e.s]
        keyed == SelectSeq(Fa.tables, LAMBDA x : Len(x.pk) > 0)
        Fk == [Fa EXCEPT !.tables = TLCEval([i \in 1..Len(keyed) |-> [keyed[i] EXCEPT !.df = <<>>]])]
        K == TabNames(Fk)
        want == UNION {DupStore(Fk, PgView(Fk, e, s, e.lex), e.lex, t) : t \in K}
        got == {<<e.ret.dups[i].t, NormSeq(e.ret.dups[i].k), e.ret.dups[i].n>> : i \in 1..Len(e.ret.dups)}
    IN IF PgBadNames(Fa, e.lex) \/ (K # {} /\ PgUnready(Fk, s, e.lex, K))
       THEN Bad(<< <<"pg.dup.refuse", ~e.ret.ok>> >>)
       ELSE IF ~e.ret.ok /\ PgReadRefused(Fa, e, s, e.lex) THEN {}
       ELSE Bad(<< <<"pg.dup.raise", e.ret.ok>>,
                   <<"pg.dup.exact", e.ret.ok => (got = want /\ Len(e.ret.dups) = Cardinality(want))>> >>)

\* the command line runner: e = [f, f2, s, s2, s3, sol, o2, mode, pretty, help]
MainClauses(e) ==
    LET Fa == F[e.f]
        fl == Fa.fl
        there == e.s # "" /\ St[e.s].exists
        s == St[e.s]
        R == ReadStore(Fa, fl, [fill |-> FALSE, tinf |-> TRUE], s, e.lex)
        keyed == {t \in TabNames(Fa) : Len(PK(Fa, t)) > 0}
        checked == fl = "tic" /\ s.fmt # "sqltext"
        dup == checked /\ UNION {DupStore(Fa, s, e.lex, t) : t \in keyed} # {}
        untouched(x) == x \notin ChangedS(e) \/ (x \notin DOMAIN St /\ \A i \in 1..Len(e.stores) : e.stores[i].id = x => ~e.stores[i].exists)
        quiet == untouched(e.s2) /\ untouched(e.s3) /\ NoNew(e, e.o2) /\ e.ret.calls = 0
        flaws == e.s3 # "" /\ Flaws(Fa, R.tabs)
        w == [op |-> "write", o |-> e.sol, s |-> e.s2, fmt |-> e.fmt2, ov |-> TRUE, form |-> "lists", exists |-> "replace", lex |-> e.lex, ret |-> e.ret,
              stores |-> e.stores, pretty |-> e.pretty /\ (e.fmt2 \in {"csv", "xls", "xlsx"} \/ (fl = "pan" /\ e.fmt2 = "sqlite"))]
        new3 == e.stores[CHOOSE i \in 1..Len(e.stores) : e.stores[i].id = e.s3]
        got3 == IF e.s3 \in ChangedS(e) THEN new3 ELSE IF e.s3 \in DOMAIN St THEN St[e.s3] ELSE NoStore([s |-> e.s3, fmt |-> e.fmt3])
    IN IF e.help # "" THEN Bad(<< <<"main.help", e.ret.ok /\ quiet>> >>)
       ELSE IF ~there THEN Bad(<< <<"main.missing", e.ret.ok /\ quiet>> >>)
       ELSE IF ~R.ok \/ dup \/ (checked /\ DupRefused(Fa, s, e.lex)) \/ (R.dups /\ Fa.dups = "assert")
       THEN Bad(<< <<"main.refuse", ~e.ret.ok /\ quiet>> >>)
       \* files in which tables without primary key are ambiguous may be refused; so may error reports about generator tables
       ELSE IF ~e.ret.ok /\ checked /\ \E t \in TabNames(Fa) : Cardinality(Matches(s.fmt, e.lex, s.tabs, t)) > 1 THEN {}
       ELSE IF ~Settled(R.tabs) /\ e.s3 # "" THEN Bad(<< <<"main.once", e.ret.calls <= 1>> >>)
       ELSE LET rep == IF e.s3 = "" THEN {} ELSE Bad(<< <<"main.report", ReportFits(Fa, R.tabs, e, got3)>> >>)
            IN IF flaws
               THEN rep \cup Bad(<< <<"main.raise", e.ret.ok>>, <<"main.unsolved", e.ret.calls = 0 /\ NoNew(e, e.o2) /\ untouched(e.s2)>> >>)
               ELSE rep \cup Bad(<< <<"main.once", e.ret.calls = 1>>,
                                     <<"main.input", e.ret.calls = 1 => /\ HasNew(e, e.o2) /\ NewO(e, e.o2).shape = "ok"
                                                                       /\ TabsFit(Fa, fl, NewO(e, e.o2).tabs, R.tabs)>> >>)
                    \cup (CASE e.mode = "raise" -> Bad(<< <<"main.propagate", ~e.ret.ok /\ untouched(e.s2)>> >>)
                           [] e.mode \in {"none", "false", "msgnone"} -> Bad(<< <<"main.nothing", e.ret.ok /\ untouched(e.s2)>> >>)
                           [] OTHER -> WriteClauses(w))

\* tables that are not mentioned are empty
MkTabs(Fa, tabs) == [i \in 1..Len(Fa.tables) |-> LET t == Fa.tables[i].t IN
                        IF HasTab([tables |-> tabs], t) THEN tabs[CHOOSE j \in 1..Len(tabs) : tabs[j].t = t]
                        ELSE [t |-> t, rows |-> <<>>, cols |-> <<>>]]
OpClauses(e) ==
    CASE e.op = "mkfac"    -> MkfacClauses(e)
      [] e.op = "newfac"   -> NewfacClauses(e)
      [] e.op = "decl"     -> DeclClauses(F[e.f], e, Used(e.f), NewF(e, e.f))
      [] e.op = "import"   -> ImportClauses(e)
      [] e.op = "clone"    -> CloneClauses(e)
      [] e.op = "cloneedit" -> CloneEditClauses(e)
      [] e.op = "schema"   -> SchemaClauses(F[e.f], e)
      [] e.op = "fklist"   -> FKListClauses(F[e.f], e)
      [] e.op = "fullparams" -> FullParamsClauses(F, O, e)
      [] e.op = "mk" /\ LinkTrouble(e.f) /\ Len(e.tabs) > 0 -> Bad(<< <<"mk.refuse", ~e.ret.ok /\ NoNew(e, e.o)>> >>)
      [] e.op = "mk"       -> Bad(<< <<"mk.raise", e.ret.ok \/ LinkClash(e.f)>>,
                                     <<"mk.rows", e.ret.ok => NewIs(e, e.f, e.o, MkTabs(F[e.f], e.tabs))>> >>)
      [] e.op = "args"     -> {}
      [] e.op \in {"rawedit", "scribble", "schemascribble"} -> {}    \* what is handed out can be edited without effect on anything: FrameClauses
      [] e.op = "build"    -> BuildClauses(e)
      [] e.op = "edit"     -> EditClauses(e)
      [] e.op = "panedit"  -> Bad(<< <<"edit.raise", e.ret.ok>>,
                                     <<"edit.rows", PostTabs(e, e.o, SetRows(O[e.o].tabs, e.t, PanEditPost(e)))>> >>)
      [] e.op = "freeze"   -> Bad(<< <<"freeze.raise", e.ret.ok>>, <<"freeze.same", e.ret.ok => e.ret.same>>,
                                     <<"freeze.rows", PostTabs(e, e.o, O[e.o].tabs)>> >>)
      [] e.op = "good"     -> GoodClauses(e)
      [] e.op = "links"    -> IF e.o \in G.lobj THEN LinkClauses(F, O, e)
                              ELSE Bad(<< <<"links.none", e.ret.ok /\ e.ret.links = <<>> >> >>)
      [] e.op = "copy"     -> CopyClauses(e)
      [] e.op = "convert"  -> ConvertClauses(e)
      [] e.op = "findfk"   -> FindFKClauses(F, O, e)
      [] e.op \in {"removefk", "replacedt"} /\ O[e.o].frozen ->
            LET noop == IF e.op = "removefk" THEN RemoveFKPost(F, O, e) = O[e.o].tabs
                        ELSE ~ReplaceRefused(F, O, e) /\ ReplacePost(F, O, e) = O[e.o].tabs
            IN Bad(<< <<"frozen.same", e.o \notin ChangedO(e)>>, <<"frozen.refuse", e.ret.ok <=> noop>> >>)
      [] e.op = "removefk" -> Bad(<< <<"removefk.raise", e.ret.ok>>,
                                     <<"removefk.same", e.ret.ok => e.ret.same>>,
                                     <<"removefk.rows", PostTabs(e, e.o, RemoveFKPost(F, O, e))>> >>)
      [] e.op = "finddt"   -> FindDTClauses(F, O, e)
      [] e.op = "replacedt" /\ GenFails(FacOf(F, O, e), O[e.o].tabs) -> {}
      [] e.op = "replacedt" -> Bad(<< <<"replacedt.raise", e.ret.ok \/ ReplaceRefused(F, O, e)>>,
                                      <<"replacedt.refuse", ReplaceRefused(F, O, e) => ~e.ret.ok>>,
                                      <<"replacedt.same", e.ret.ok => e.ret.same>>,
                                      <<"replacedt.rows", PostTabs(e, e.o, ReplacePost(F, O, e))>> >>)
      [] e.op = "findrow"  -> FindRowClauses(F, O, e)
      [] e.op = "finddup"  -> FindDupClauses(F, O, e)
      [] e.op = "put"      -> Bad(<< <<"put", e.ret.ok /\ NewS(e).shape = "ok">> >>)
      [] e.op = "write"    -> WriteClauses(e)
      [] e.op = "read"     -> ReadClauses(e)
      [] e.op = "fdup"     -> FdupClauses(e)
      [] e.op = "pgput"    -> Bad(<< <<"put", e.ret.ok>> >>)
      [] e.op = "mdbschema" -> MdbSchemaClauses(F[e.f], e, OldS(e), NewS(e))
      [] e.op = "pgschema" -> PgSchemaClauses(e)
      [] e.op = "pgwrite"  -> PgWriteClauses(e)
      [] e.op = "pgread"   -> PgReadClauses(e)
      [] e.op = "pgdup"    -> PgDupClauses(e)
      [] e.op = "obf"      -> ObfClauses(e)
      [] e.op = "toampl"   -> ToAmplClauses(F, O, e)
      [] e.op = "fromampl" -> IF FromAmplRefused(F[e.f], e) THEN Bad(<< <<"ampl.varrefuse", ~e.ret.ok /\ NoNew(e, e.o2)>> >>)
                              ELSE Bad(<< <<"ampl.varraise", e.ret.ok>>, <<"ampl.vars", e.ret.ok => HasNew(e, e.o2) /\ FromAmplFits(F[e.f], e, NewO(e, e.o2))>> >>)
      [] e.op = "amplfmt"  -> FmtClauses(e)
      [] e.op \in {"logopen", "logwrite", "logtable", "logclose"} -> LogClauses(G.log, e)
      [] e.op = "progress" -> ProgressClauses(e)
      [] e.op = "solvercb" -> CallbackClauses(e)
      [] e.op = "sloc"     -> SlocClauses(e)
      [] e.op = "dfapply"  -> ApplyClauses(e)
      [] e.op = "slicer"   -> SlicerClauses(e)
      [] e.op = "slice"    -> SliceClauses(e)
      [] e.op = "main"     -> MainClauses(e)
      [] e.op = "sclear"   -> Bad(<< <<"slice.raise", e.ret.ok>> >>)
      [] e.op = "hang"     -> {"hang"}
      [] e.op = "setcell"  -> Bad(<< <<"setcell.raise", e.ret.ok>> >>)

\* asking the same question again, with nothing changed in between, gives the same answer
RepeatOps == {"findfk", "finddt", "findrow", "finddup", "links", "fullparams", "fdup"}
Untouched(e, j) == \A k \in (j + 1)..l : LET p == Traces[tr].ev[k]
                                         IN p.facs = <<>> /\ p.stores = <<>> /\ \A i \in 1..Len(p.objs) : e.op # "fdup" => p.objs[i].id # e.o
RepeatClauses(e) ==
    IF e.op \notin RepeatOps THEN {}
    ELSE Bad(<< <<"repeat.same", \A j \in 1..l : LET p == Traces[tr].ev[j]
                    IN (p.op = e.op /\ p.sig = e.sig /\ Untouched(e, j)) => p.ret.canon = e.ret.canon>> >>)

BadClauses(e) == OpClauses(e) \cup FrameClauses(e) \cup RepeatClauses(e) \cup ImpliedVerdict(e)

\* bookkeeping of what projections cannot show
NewObjs(e) == {i \in 1..Len(e.objs) : e.objs[i].id \notin DOMAIN O \/ e.op \in {"mk", "build", "read", "main", "pgread", "fromampl"}}
Tried(e) == CASE e.op \in {"mk", "build", "good", "read", "main", "pgread", "fromampl"} -> {e.f}
              [] e.op = "convert" -> {e.f2}
              [] OTHER -> {}
GNext(e) ==
    LET made == {e.objs[i].fac : i \in NewObjs(e)} \ {""}
        newf == IF e.op \in FacOps THEN MayChangeF(e) ELSE {}
        fs == DOMAIN G.used \cup made \cup Tried(e) \cup newf
        fresh(f) == e.op # "decl" /\ f \in newf /\ e.ret.ok
        use(f) == CASE fresh(f) -> "no"
                    [] f \in made -> "yes"
                    [] f \in Tried(e) /\ Used(f) = "no" -> "maybe"
                    [] OTHER -> Used(f)
        keep == {f \in G.links : ~fresh(f)}
        on == CASE e.op = "mkfac" /\ e.ret.ok /\ e.fl = "tic" /\ "links" \in DOMAIN e.desc /\ e.desc.links -> {e.f}
                [] e.op = "decl" /\ e.d.k = "links" /\ e.ret.ok -> {e.f}
                [] e.op \in {"clone", "cloneedit"} /\ e.ret.ok /\ e.f \in G.links /\ (e.op = "clone" => e.fl2 = "tic") -> {e.f2}
                [] OTHER -> {}
        fkdecl == e.op = "decl" /\ e.d.k \in {"addfk", "clearfk"} /\ e.ret.ok
        bdrop == {f \in DOMAIN G.base : fresh(f) \/ (fkdecl /\ f = e.f)}
        badd == IF e.op = "decl" /\ e.d.k = "implied" /\ e.ret.ok /\ e.f \notin DOMAIN G.base THEN {e.f} ELSE {}
    IN [used |-> TLCEval([f \in fs |-> use(f)]),
        links |-> TLCEval(keep \cup on),
        lobj |-> TLCEval({o \in G.lobj : \A i \in NewObjs(e) : e.objs[i].id # o} \cup
                         {e.objs[i].id : i \in {j \in NewObjs(e) : e.objs[j].fl = "tic" /\ e.objs[j].fac \in G.links}}),
        orig |-> LET wrote == \/ e.op = "pgwrite" /\ e.ret.ok /\ ~(O[e.o].fl = "pan" /\ e.prog > 0) /\ \A i \in 1..Len(e.pol) : e.pol[i][2] = "delete"
                              \/ e.op = "write" /\ e.ret.ok /\ ~(O[e.o].fl = "pan" /\ e.fmt = "sqlite" /\ e.exists = "append" /\ OldS(e).exists)
                     keep2 == DOMAIN G.orig \ ChangedS(e)
                 IN TLCEval([s \in keep2 \cup (IF wrote THEN {e.s} ELSE {}) |->
                        IF wrote /\ s = e.s THEN [fac |-> FacOf(F, O, e), fl |-> O[e.o].fl, tabs |-> O[e.o].tabs] ELSE G.orig[s]]),
        log |-> TLCEval(LogNext(G.log, e)),
        sl |-> IF e.op = "slicer" /\ e.ret.ok THEN TLCEval([x \in DOMAIN G.sl \cup {e.id} |-> IF x = e.id THEN e.rows ELSE G.sl[x]]) ELSE G.sl,
        base |-> TLCEval([f \in (DOMAIN G.base \ bdrop) \cup badd |-> IF f \in badd THEN F[f].fks ELSE G.base[f]])]

Init == /\ tr \in 1..Len(Traces)
        /\ l = 0
        /\ F = <<>>
        /\ O = <<>>
        /\ St = <<>>
        /\ G = [log |-> <<>>, sl |-> <<>>, orig |-> <<>>, used |-> <<>>, links |-> {}, lobj |-> {}, base |-> <<>>]
Next == /\ l < Len(Traces[tr].ev)
        /\ l' = l + 1
        /\ tr' = tr
        /\ LET e == Ev
               bad == BadClauses(e)
           IN /\ bad # {} => PrintT("VPM " \o ToJson([tr |-> tr, l |-> l + 1, op |-> e.op, bad |-> bad]))
              /\ F' = Upd(F, e.facs)
              /\ O' = Upd(O, e.objs)
              /\ St' = Upd(St, e.stores)
              /\ G' = GNext(e)
Spec == Init /\ [][Next]_vars
=============================================================================
