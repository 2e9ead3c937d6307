-------------------------------- MODULE MCPg --------------------------------
(* PostgreSQL: two tables, one referring to the other, every small data set written twice  *)
(* under every policy.  The database never holds a key twice nor a reference to nothing,   *)
(* a write that is accepted leaves exactly the rows kept and the rows written, a refusal   *)
(* always has a cause, and reading finds what was written.                                 *)
EXTENDS MCBase
CONSTANTS CKeys      \* rows of the referring table: at most so many
VARIABLES cfg, todo, db, step, last
vars == <<cfg, todo, db, step, last>>

CTables == <<Std("c", <<"k">>, <<"x">>), Std("p", <<"k">>, <<>>)>>
CText(null) == [num |-> FALSE, imin |-> FALSE, imax |-> FALSE, min |-> MInf, max |-> PInf, int |-> FALSE, any |-> TRUE, strs |-> <<>>,
                null |-> null, dt |-> FALSE]
CDesc(null) == [Desc(CTables, <<FK("c", "p", <<<<"x", "k">>>>)>>) EXCEPT !.dt = <<[t |-> "c", f |-> "x", ty |-> CText(null)]>>]
Fac(c) == [NewFac(CTables) EXCEPT !.fks = <<FK("c", "p", <<<<"x", "k">>>>)>>, !.dt = <<[t |-> "c", f |-> "x", ty |-> NormType(CText(c.null))]>>]
LXPg == [n \in {"c", "p", "k", "x"} |-> [pg |-> n, low |-> n]]
ESchema(c) == [anc |-> c.anc, forced |-> <<>>]
CTab(c, t) ==
    LET Fa == Fac(c) e == ESchema(c) fs == Fields(Fa, t)
    IN [name |-> t, form |-> "cols", cols |-> fs, aff |-> [i \in 1..Len(fs) |-> ColType(Fa, e, t, fs[i])], rows |-> <<>>,
        nn |-> [i \in 1..Len(fs) |-> IF InSeq(PK(Fa, t), fs[i]) THEN c.anc ELSE MustHave(Fa, e, t, fs[i])],
        pk |-> IF c.anc THEN PK(Fa, t) ELSE <<>>,
        fks |-> IF c.anc /\ t = "c" THEN <<[ft |-> "p", m |-> <<<<"x", "k">>>>]>> ELSE <<>>,
        dfl |-> [i \in 1..Len(fs) |-> LET d == PgDefault(Fa, e, t, fs[i]) IN IF d = NoUnset THEN Null ELSE d]]
Store(tabs) == [id |-> "db", fmt |-> "pg", exists |-> TRUE, hdr |-> TRUE, schema |-> TRUE, tabs |-> tabs, shape |-> "ok", fp |-> ""]

Prows == Keyed(<<<<Str("a")>>, <<Str("b")>>>>, {<<>>})
Crows == Keyed(IF CKeys = 1 THEN <<<<Str("m")>>>> ELSE <<<<Str("m")>>, <<Str("n")>>>>, {<<Str("a")>>, <<Str("b")>>, <<Null>>})
Sets == {<<Data("c", c), Data("p", p)>> : c \in Crows, p \in Prows}
Pols == {<<<<"c", a>>, <<"p", b>>>> : a \in {"delete", "append"}, b \in {"delete", "append"}}
OSchema(c) == [op |-> "pgschema", f |-> "F", s |-> "db", fmt |-> "pg", anc |-> c.anc, forced |-> <<>>, how |-> "engine"]
OPgWrite(o, pol) == [op |-> "pgwrite", o |-> o, s |-> "db", fmt |-> "pg", pol |-> pol, usepol |-> TRUE, active |-> "", dsn |-> "", how |-> "future",
                   prog |-> 0 - 1, ctx |-> <<>>]
OPgRead(o) == [op |-> "pgread", f |-> "F", s |-> "db", o2 |-> o, active |-> "", how |-> "conn", freeze |-> FALSE]
Ops(fl, c, d) == <<OMkfac("F", fl, CDesc(c.null)), OSchema(c), OMk("F", "A", d[1].tabs), OPgWrite("A", <<>>), OPgRead("B"),
                   OMk("F", "C", d[2].tabs), OPgWrite("C", d[2].pol), OPgRead("D")>>
CCode(v) == CASE v = Str("a") -> 2 [] v = Str("b") -> 29 [] v = Str("m") -> 5 [] v = Str("n") -> 71 [] OTHER -> 11
CHash(D) == Mix([i \in 1..2 |-> Mix([j \in 1..Len(D[i].rows) |-> Mix([k \in 1..Len(D[i].rows[j]) |-> CCode(D[i].rows[j][k])], 1, 3)], 1, 5)], 1, 7)
CFirst == <<<<"c", "delete">>, <<"p", "delete">>>>
Init == /\ cfg \in [null : BOOLEAN, anc : BOOLEAN]
        /\ \E d1 \in Sets, d2 \in Sets, pol \in Pols : todo = <<[tabs |-> d1, pol |-> CFirst], [tabs |-> d2, pol |-> pol]>>
        /\ db = Store(<<CTab(cfg, "c"), CTab(cfg, "p")>>)
        /\ step = 0
        /\ last = "ok"
        /\ LET h == Mix(<<CHash(todo[1].tabs), CHash(todo[2].tabs), Len(todo[2].pol[1][2] \o todo[2].pol[2][2]),
                          Len(todo[2].pol[1][2]), IF cfg.null THEN 1 ELSE 0, IF cfg.anc THEN 1 ELSE 0>>, 1, 1)
           IN Chosen(h) => Emit(Ops(IF (h \div 1009) % 2 = 0 THEN "tic" ELSE "pan", cfg, todo))
E == [pol |-> todo[step + 1].pol, active |-> ""]
Write == /\ step < Len(todo) /\ last = "ok"
         /\ step' = step + 1
         /\ LET D == todo[step + 1].tabs
                v == PgWriteVerdict(Fac(cfg), E, LXPg, db, D)
            IN /\ last' = v
               /\ db' = IF v # "ok" THEN db
                        ELSE [db EXCEPT !.tabs = TLCEval([i \in 1..2 |->
                                LET p == PgPlan(Fac(cfg), E, LXPg, db, db.tabs[i].name, D) IN [db.tabs[i] EXCEPT !.rows = p.K \o p.W]])]
         /\ UNCHANGED <<cfg, todo>>
Spec == Init /\ [][Write]_vars

CDistinct(tab) == \A i, j \in 1..Len(tab.rows) : i # j => tab.rows[i][1] # tab.rows[j][1]
Sound(s) == /\ \A i \in 1..2 : CDistinct(s.tabs[i])
            /\ \A r \in Range(s.tabs[1].rows) : IsNull(r[2]) \/ \E q \in Range(s.tabs[2].rows) : q[1] = r[2]
Consistent == cfg.anc => Sound(db)
NotNull == ~cfg.null => \A r \in Range(db.tabs[1].rows) : ~IsNull(r[2])
CSettled == last # "open"
Laid == step = 0 => \A t \in {"c", "p"} : PgTabFits(Fac(cfg), ESchema(cfg), LXPg, t, PgTab(db, t)) = {}
\* what a write that was accepted leaves is what it may leave, and nothing else
Exact == (step > 0 /\ last = "ok" /\ \A i \in 1..step : \A j \in 1..2 : todo[i].pol[j][2] = "delete") =>
            \A i \in 1..2 : Range(db.tabs[i].rows) = Range(Rows(todo[step].tabs, db.tabs[i].name))
Grown == (step = 2 /\ last = "ok") => \A i \in 1..2 :
            LET t == db.tabs[i].name
                new == Rows(todo[2].tabs, t)
            IN IF PolOf([pol |-> todo[2].pol], t) = "append" THEN db.tabs[i].rows = Rows(todo[1].tabs, t) \o new ELSE db.tabs[i].rows = new
\* a refusal has a cause: the outcome would not be sound, or rows that stay refer to rows that go
Caused == last = "fail" =>
    LET e == [pol |-> todo[step].pol]
        fin(t) == (IF PolOf(e, t) = "append" THEN PgTab(db, t).rows ELSE <<>>) \o Rows(todo[step].tabs, t)
        n == [db EXCEPT !.tabs = TLCEval([i \in 1..2 |-> [db.tabs[i] EXCEPT !.rows = fin(db.tabs[i].name)]])]
    IN \/ cfg.anc /\ ~Sound(n)
       \/ ~cfg.null /\ \E r \in Range(fin("c")) : IsNull(r[2])
       \/ cfg.anc /\ PolOf(e, "c") = "append" /\ PolOf(e, "p") = "delete" /\ \E r \in Range(PgTab(db, "c").rows) : ~IsNull(r[2])
\* reading sees the rows there are
Seen == LET v == PgView(Fac(cfg), [active |-> ""], db, LXPg)
        IN \A t \in {"c", "p"} : \E i \in 1..2 : v.tabs[i].name = t /\ Bag(v.tabs[i].rows) = Bag(PgTab(db, t).rows)
Inv == Consistent /\ NotNull /\ CSettled /\ Laid /\ Exact /\ Grown /\ Caused /\ Seen
=============================================================================
