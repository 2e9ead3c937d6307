----------------------------- MODULE OpsFactory -----------------------------
(* Factories: construction from a schema, declarations, locking, export and re-import,    *)
(* cloning, schema edits, implied foreign keys, parameters.                               *)
EXTENDS OpsObjects

NA == Str("N/A")
NoType == [num |-> FALSE, imin |-> TRUE, imax |-> TRUE, min |-> Zero, max |-> PInf, int |-> FALSE, any |-> FALSE,
           strs |-> <<>>, null |-> FALSE, dt |-> FALSE]
AutoNames == {"#" \o ToString(i) : i \in 0..20}
\* sequences standing for sets / finite maps
SameSet(a, b) == Len(a) = Len(b) /\ Range(a) = Range(b)
PutBy(s, same(_), x) == IF \E i \in 1..Len(s) : same(s[i])
                        THEN [i \in 1..Len(s) |-> IF same(s[i]) THEN x ELSE s[i]] ELSE Append(s, x)
DropBy(s, same(_)) == SelectSeq(s, LAMBDA x : ~same(x))

FKRec(fk) == [nt |-> fk.nt, ft |-> fk.ft, m |-> MapSet(fk.m)]
FKSetOf(s) == {FKRec(s[i]) : i \in 1..Len(s)}

\* equality of declared content (the order in which sets are listed is irrelevant,
\* the order of fields is not)
TabRecs(s) == {[t |-> s[i].t, pk |-> s[i].pk, df |-> s[i].df, kind |-> s[i].kind] : i \in 1..Len(s)}
PredRec(p) == [t |-> p.t, name |-> p.name, resp |-> p.resp, e |-> p.e, f |-> p.f, g |-> p.g, v |-> p.v,
               tru |-> p.tru, msg |-> p.msg, mk |-> p.mk]
PredSet(s) == {PredRec(s[i]) : i \in 1..Len(s)}
FacDiff(A, B) ==    \* names of the parts in which two factories differ
    Bad(<< <<"tables", TabRecs(A.tables) = TabRecs(B.tables) /\ Len(A.tables) = Len(B.tables)>>,
           <<"dt", SameSet(A.dt, B.dt)>>,
           <<"dv", SameSet(A.dv, B.dv)>>,
           <<"fks", Len(A.fks) = Len(B.fks) /\ FKSetOf(A.fks) = FKSetOf(B.fks)>>,
           <<"params", SameSet(A.params, B.params)>>,
           <<"tips", SameSet(A.tips, B.tips)>>,
           <<"preds", Len(A.preds) = Len(B.preds) /\ PredSet(A.preds) = PredSet(B.preds)>>,
           <<"settings", <<A.inf, A.trail, A.dups, A.munge>> = <<B.inf, B.trail, B.dups, B.munge>> >> >>)

---------------------------------------------------------------------------
(* A factory fresh from its constructor.  Data fields default to zero. *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Zeros(tb) == IF tb.kind = "generic" THEN <<>> ELSE [j \in 1..Len(tb.df) |-> [t |-> tb.t, f |-> tb.df[j], v |-> Zero]]
NewFac(tables) ==
    [tables |-> tables, dt |-> <<>>, dv |-> TLCEval(Flat([i \in 1..Len(tables) |-> Zeros(tables[i])])), fks |-> <<>>,
     params |-> <<>>, tips |-> <<>>, preds |-> <<>>, inf |-> NA, trail |-> "prune", dups |-> "assert",
     munge |-> TRUE, shape |-> "ok"]

(* Well-formed schemas.  An entry is [t, form, pk, df, lo, los]: lo, los are the lower case  *)
(* renderings of the name and of the fields.                                                *)
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
GoodEntry(x) == /\ ~x.under /\ ~x.space
                /\ CASE x.form = "*" -> TRUE
                     [] x.form = "pair" -> /\ Len(x.pk) + Len(x.df) > 0
                                           /\ Distinct(x.los)
                     [] OTHER -> FALSE
GoodSchema(s) == /\ \A i \in 1..Len(s) : GoodEntry(s[i])
                 /\ Distinct([i \in 1..Len(s) |-> s[i].lo])
EntryTab(x) == [t |-> x.t, pk |-> IF x.form = "*" THEN <<>> ELSE x.pk, df |-> IF x.form = "*" THEN <<>> ELSE x.df,
                kind |-> IF x.form = "*" THEN "generic" ELSE "std"]

---------------------------------------------------------------------------
(* Declarations: Decl(F, flavour, d) = [ok, fac] for a factory that is not locked *)
Yes(Fa) == [ok |-> TRUE, fac |-> Fa]
No(Fa)  == [ok |-> FALSE, fac |-> Fa]
OwnTable(Fa, t) == HasTab(Fa, t) /\ Tab(Fa, t).kind # "generic"
OwnField(Fa, t, f) == OwnTable(Fa, t) /\ InSeq(Fields(Fa, t), f)
AcceptableDefault(v) == v.k \in {"num", "inf", "str", "bool", "null"}
Numericish(v) == v.k \in {"num", "inf"}
LegalTypeArgs(ty, badstrs) ==
    \/ ty.dt
    \/ /\ badstrs = 0
       /\ ty.num => (Numericish(ty.min) /\ Numericish(ty.max) /\ NumLe(ty.min, ty.max))
ParamTableOK(Fa) == /\ OwnTable(Fa, "parameters")
                    /\ Len(PK(Fa, "parameters")) = 1 /\ Len(DF(Fa, "parameters")) = 1
                    /\ TypeOf(Fa, "parameters", DF(Fa, "parameters")[1]) = <<>>

SetDV(Fa, t, f, v) == [Fa EXCEPT !.dv = PutBy(@, LAMBDA x : x.t = t /\ x.f = f, [t |-> t, f |-> f, v |-> v])]
RECURSIVE SetDVs(_, _, _)
SetDVs(Fa, t, cells) == IF cells = <<>> THEN Fa ELSE SetDVs(SetDV(Fa, t, cells[1].f, cells[1].v), t, Tail(cells))
RECURSIVE SetAllDVs(_, _)
SetAllDVs(Fa, ent) == IF ent = <<>> THEN Fa ELSE SetAllDVs(SetDVs(Fa, ent[1].t, ent[1].cells), Tail(ent))

AddFK(Fa, k) == IF \E i \in 1..Len(Fa.fks) : SameFK(Fa.fks[i], k) THEN Fa
                ELSE [Fa EXCEPT !.fks = Append(@, [nt |-> k.nt, ft |-> k.ft, m |-> k.m])]

(* Implied foreign keys: the least set closed under chaining two keys through the fields of the   *)
(* bridge table, as far as the chained key refers to exactly a primary key                        *)
Chain(Fa, a, b) ==      \* a, b in FKSetOf form
    {[nt |-> a.nt, ft |-> b.ft, m |-> mm] : mm \in
        {{<<p[1], q[2]>> : <<p, q>> \in {pq \in a.m \X b.m : pq[1][2] = pq[2][1]}}} \ {{}}}
Derived(Fa, S) == {k \in UNION {Chain(Fa, a, b) : <<a, b>> \in {ab \in S \X S : ab[1].ft = ab[2].nt}} :
                      {p[2] : p \in k.m} = Range(PK(Fa, k.ft))}
RECURSIVE Closure(_, _)
Closure(Fa, S) == LET N == TLCEval(Derived(Fa, S) \ S) IN IF N = {} THEN S ELSE Closure(Fa, S \cup N)
RECURSIVE SetToSeq1(_)
SetToSeq1(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq1(S \ {x})
Implied(Fa) == LET N == Closure(Fa, FKSetOf(Fa.fks)) \ FKSetOf(Fa.fks)
                   add == SetToSeq1(N)
               IN [Fa EXCEPT !.fks = @ \o [i \in 1..Len(add) |->
                       [nt |-> add[i].nt, ft |-> add[i].ft, m |-> SetToSeq1(add[i].m)]]]

\* keys that map two fields onto the same one: which keys they imply is not settled
Folded(Fa) == \E i \in 1..Len(Fa.fks) : LET m == Fa.fks[i].m IN \E a, b \in 1..Len(m) : a # b /\ m[a][2] = m[b][2]

PredName(Fa, p) == IF p.name = "#" \/ p.auto
                   THEN "#" \o ToString(CHOOSE n \in 0..100 :
                           /\ \A i \in 1..Len(Fa.preds) : ~(Fa.preds[i].t = p.t /\ Fa.preds[i].name = "#" \o ToString(n))
                           /\ \A m \in 0..(n-1) : \E i \in 1..Len(Fa.preds) : Fa.preds[i].t = p.t /\ Fa.preds[i].name = "#" \o ToString(m))
                   ELSE p.name
AddPred(Fa, p) == LET q == [PredRec(p) EXCEPT !.name = PredName(Fa, p)]
                  IN [Fa EXCEPT !.preds = PutBy(@, LAMBDA x : x.t = q.t /\ x.name = q.name, q)]

Decl(Fa, d) ==
    CASE d.k = "setdt" ->
            IF /\ OwnField(Fa, d.t, d.f)
               /\ ~(d.t = "parameters" /\ Len(Fa.params) > 0 /\ InSeq(DF(Fa, d.t), d.f))
               /\ LegalTypeArgs(d.ty, d.badstrs)
            THEN Yes([Fa EXCEPT !.dt = PutBy(@, LAMBDA x : x.t = d.t /\ x.f = d.f, [t |-> d.t, f |-> d.f, ty |-> NormType(d.ty)])])
            ELSE No(Fa)
      [] d.k = "cleardt" -> Yes([Fa EXCEPT !.dt = DropBy(@, LAMBDA x : x.t = d.t /\ x.f = d.f)])
      [] d.k = "setdv" -> IF OwnField(Fa, d.t, d.f) /\ AcceptableDefault(d.v) THEN Yes(SetDV(Fa, d.t, d.f, d.v)) ELSE No(Fa)
      [] d.k = "setdvs" ->
            IF \A i \in 1..Len(d.ent) : /\ d.ent[i].form = "dict" /\ OwnTable(Fa, d.ent[i].t)
                                        /\ \A j \in 1..Len(d.ent[i].cells) :
                                             /\ OwnField(Fa, d.ent[i].t, d.ent[i].cells[j].f)
                                             /\ AcceptableDefault(d.ent[i].cells[j].v)
            THEN Yes(SetAllDVs(Fa, d.ent)) ELSE No(Fa)
      [] d.k = "addfk" ->
            IF /\ OwnTable(Fa, d.nt) /\ OwnTable(Fa, d.ft)
               /\ d.form = "ok" /\ Len(d.m) > 0
               /\ \A i \in 1..Len(d.m) : OwnField(Fa, d.nt, d.m[i][1]) /\ OwnField(Fa, d.ft, d.m[i][2])
            THEN Yes(AddFK(Fa, d)) ELSE No(Fa)
      [] d.k = "clearfk" -> IF d.t = "" \/ HasTab(Fa, d.t)
                            THEN Yes([Fa EXCEPT !.fks = IF d.t = "" THEN <<>> ELSE DropBy(@, LAMBDA x : x.nt = d.t)]) ELSE No(Fa)
      [] d.k = "implied" -> Yes(Implied(Fa))
      [] d.k = "addparam" ->
            IF /\ ParamTableOK(Fa)
               /\ d.typed => (LegalTypeArgs(d.ty, d.badstrs) /\ Valid(NormType(d.ty), d.v))
            THEN Yes([Fa EXCEPT !.params = PutBy(@, LAMBDA x : x.p = d.p,
                        [p |-> d.p, typed |-> d.typed, ty |-> IF d.typed THEN NormType(d.ty) ELSE NoType, v |-> d.v])])
            ELSE No(Fa)
      [] d.k = "rmparam" -> IF \E i \in 1..Len(Fa.params) : Fa.params[i].p = d.p
                            THEN Yes([Fa EXCEPT !.params = DropBy(@, LAMBDA x : x.p = d.p)]) ELSE No(Fa)
      [] d.k = "tip" ->
            IF HasTab(Fa, d.t) /\ (d.f = "" \/ OwnField(Fa, d.t, d.f)) /\ d.v.k = "str"
            THEN Yes([Fa EXCEPT !.tips = IF d.v.s = "" THEN DropBy(@, LAMBDA x : x.t = d.t /\ x.f = d.f)
                                         ELSE PutBy(@, LAMBDA x : x.t = d.t /\ x.f = d.f, [t |-> d.t, f |-> d.f, s |-> d.v.s])])
            ELSE No(Fa)
      [] d.k = "setgens" ->
            IF d.form = "list" /\ \A i \in 1..Len(d.ts) : OwnTable(Fa, d.ts[i]) /\ PK(Fa, d.ts[i]) = <<>>
            THEN Yes([Fa EXCEPT !.tables = [i \in 1..Len(@) |-> LET x == @[i] IN IF x.kind = "generic" THEN x
                         ELSE [x EXCEPT !.kind = IF InSeq(d.ts, x.t) THEN "gen" ELSE "std"]]])
            ELSE No(Fa)
      [] d.k = "inf" -> IF \/ d.v = NA \/ IsNull(d.v)
                           \/ d.v.k = "num" /\ NumLt(Zero, d.v)
                        THEN Yes([Fa EXCEPT !.inf = d.v]) ELSE No(Fa)
      [] d.k = "trail" -> IF d.v.k = "str" /\ d.v.s \in {"prune", "ignore"} THEN Yes([Fa EXCEPT !.trail = d.v.s]) ELSE No(Fa)
      [] d.k = "dups" -> IF d.v.k = "str" /\ d.v.s \in {"assert", "warn", "ignore"} THEN Yes([Fa EXCEPT !.dups = d.v.s]) ELSE No(Fa)
      [] d.k = "munge" -> IF d.v.k = "bool" THEN Yes([Fa EXCEPT !.munge = (d.v.n = 1)]) ELSE No(Fa)
      [] d.k = "links" -> Yes(Fa)
      [] d.k = "addpred" ->
            IF OwnTable(Fa, d.p.t) /\ Tab(Fa, d.p.t).kind = "std" /\ d.bad = "" THEN Yes(AddPred(Fa, d.p)) ELSE No(Fa)
      [] d.k = "rmpred" ->
            IF HasTab(Fa, d.t) /\ (Tab(Fa, d.t).kind = "std" \/ (Fa.fl = "pan" /\ Tab(Fa, d.t).kind = "generic")) THEN Yes([Fa EXCEPT !.preds = DropBy(@, LAMBDA x : x.t = d.t /\ x.name = d.name)]) ELSE No(Fa)

Lockable == {"setdt", "setdv", "setdvs", "addfk", "clearfk", "implied", "addparam", "setgens", "addpred", "rmpred"}
Locks(Fa, d) == d.k \in Lockable \/ (d.k = "cleardt" /\ TypeOf(Fa, d.t, d.f) # <<>>)

\* used: "no", "maybe" (constructions were only attempted) or "yes"
DeclClauses(Fa, e, used, New) ==
    LET r == Decl(Fa, e.d)
        locks == Locks(Fa, e.d)
        locked == used = "yes" /\ locks
        free == used = "no" \/ ~locks
        p == IF e.d.k = "implied" THEN "implied" ELSE "decl"
    IN Bad(<< <<"lock.raise", locked => ~e.ret.ok>>,
              <<"lock.same", locked => FacDiff(New, Fa) = {}>>,
              <<"lock.free", (free /\ r.ok) => e.ret.ok>>,
              <<p \o ".refuse", ~r.ok => ~e.ret.ok>>,
              <<"decl.noeffect", ~e.ret.ok => FacDiff(New, Fa) = {}>>,
              <<p \o ".effect", (r.ok /\ e.ret.ok) =>
                    IF e.d.k = "implied" /\ Folded(Fa) THEN FacDiff(New, Fa) \subseteq {"fks"} /\ FKSetOf(Fa.fks) \subseteq FKSetOf(New.fks)
                    ELSE FacDiff(New, r.fac) = {}>> >>)

---------------------------------------------------------------------------
(* Building from a whole description: tables, then every declaration in turn *)
RECURSIVE DeclAll(_, _)
DeclAll(Fa, ds) == IF ds = <<>> THEN Fa ELSE DeclAll(TLCEval(Decl(Fa, ds[1]).fac), Tail(ds))
FromDesc(d, fl) ==
    LET base == NewFac([i \in 1..Len(d.tables) |-> [d.tables[i] EXCEPT !.kind = IF @ = "generic" THEN @ ELSE "std"]])
        gens == SelectSeq([i \in 1..Len(d.tables) |-> IF d.tables[i].kind = "gen" THEN d.tables[i].t ELSE ""], LAMBDA x : x # "")
        f1 == DeclAll(base, [i \in 1..Len(d.dt) |-> [k |-> "setdt", t |-> d.dt[i].t, f |-> d.dt[i].f, ty |-> d.dt[i].ty, badstrs |-> 0]])
        f2 == DeclAll(f1, [i \in 1..Len(d.dv) |-> [k |-> "setdv", t |-> d.dv[i].t, f |-> d.dv[i].f, v |-> d.dv[i].v]])
        f3 == DeclAll(f2, [i \in 1..Len(d.fks) |-> [k |-> "addfk", nt |-> d.fks[i].nt, ft |-> d.fks[i].ft, m |-> d.fks[i].m, form |-> "ok"]])
        f4 == DeclAll(f3, [i \in 1..Len(d.params) |-> [k |-> "addparam", p |-> d.params[i].p, typed |-> d.params[i].typed,
                                  ty |-> IF d.params[i].typed THEN d.params[i].ty ELSE NoType, v |-> d.params[i].v, badstrs |-> 0]])
        f5 == DeclAll(f4, [i \in 1..Len(d.tips) |-> [k |-> "tip", t |-> d.tips[i].t, f |-> d.tips[i].f, v |-> Str(d.tips[i].s)]])
        f6 == DeclAll(f5, [i \in 1..Len(d.preds) |-> [k |-> "addpred", bad |-> "", p |-> d.preds[i] @@ [auto |-> d.preds[i].name \in AutoNames]]])
        f7 == IF gens = <<>> \/ fl = "pan" THEN f6 ELSE Decl(f6, [k |-> "setgens", ts |-> gens, form |-> "list"]).fac
        has(x) == x \in DOMAIN d
    IN [f7 EXCEPT !.inf = IF has("inf") THEN d.inf ELSE @, !.trail = IF has("trail") THEN d.trail ELSE @,
                  !.dups = IF has("dups") THEN d.dups ELSE @, !.munge = IF has("munge") THEN d.munge ELSE @]

---------------------------------------------------------------------------
(* Cloning, restricting, exporting, editing *)
RestrictFac(Fa, T) ==
    [Fa EXCEPT !.tables = SelectSeq(@, LAMBDA x : x.t \in T),
               !.dt = SelectSeq(@, LAMBDA x : x.t \in T),
               !.dv = SelectSeq(@, LAMBDA x : x.t \in T),
               !.fks = SelectSeq(@, LAMBDA x : x.nt \in T /\ x.ft \in T),
               !.params = IF "parameters" \in T THEN @ ELSE <<>>,
               !.tips = SelectSeq(@, LAMBDA x : x.t \in T),
               !.preds = SelectSeq(@, LAMBDA x : x.t \in T)]
NoGens(Fa) == [Fa EXCEPT !.tables = [i \in 1..Len(@) |-> LET x == @[i] IN IF x.kind = "gen" THEN [x EXCEPT !.kind = "std"] ELSE x]]
\* what a clone of flavour fl2 keeps
CloneFac(Fa, fl, e) ==
    LET A == IF e.restrict = <<>> THEN Fa ELSE RestrictFac(Fa, Range(e.restrict))
        B == IF fl # e.fl2 /\ e.via = "class" /\ ~e.conv
             THEN [A EXCEPT !.preds = SelectSeq(@, LAMBDA p : p.mk = <<>>)] ELSE A
    IN IF e.fl2 = "pan" THEN NoGens(B) ELSE B
\* an exported schema keeps everything but row predicates and generator tables; e.cut lists omitted optional parts
ImportFac(Fa, e) ==
    LET c(x) == InSeq(e.cut, x)
    IN [NoGens(Fa) EXCEPT !.preds = <<>>,
                          !.params = IF c("parameters") THEN <<>> ELSE @,
                          !.inf = IF c("infinity_io_flag") THEN NA ELSE @,
                          !.trail = IF c("xlsx_trailing_empty_rows") THEN "prune" ELSE @,
                          !.dups = IF c("duplicates_ticdat_init") THEN "assert" ELSE @,
                          !.munge = IF c("automunge_multitype_fields") THEN TRUE ELSE @,
                          !.tips = IF c("tooltips") THEN <<>> ELSE @]
ImportRefused(e) == \/ \E x \in {"tables_fields", "foreign_keys", "default_values", "data_types"} : InSeq(e.cut, x)
                    \/ e.junk

SetTab(Fa, t, rec) == [Fa EXCEPT !.tables = [i \in 1..Len(@) |-> IF @[i].t = t THEN rec ELSE @[i]]]
RenField(Fa, t, f, g) ==
    LET r(tt, x) == IF tt = t /\ x = f THEN g ELSE x
        tb == Tab(Fa, t)
        s(x) == [j \in 1..Len(x) |-> r(t, x[j])]
        cell(seq) == [i \in 1..Len(seq) |-> [seq[i] EXCEPT !.f = r(seq[i].t, @)]]
    IN [SetTab(Fa, t, [tb EXCEPT !.pk = s(@), !.df = s(@)]) EXCEPT
            !.dt = cell(@), !.dv = cell(@), !.tips = cell(@),
            !.fks = [i \in 1..Len(@) |-> LET k == @[i] IN
                        [k EXCEPT !.m = [p \in 1..Len(@) |-> <<r(k.nt, @[p][1]), r(k.ft, @[p][2])>>]]]]
RmField(Fa, t, f) ==
    LET tb == Tab(Fa, t)
        s(x) == SelectSeq(x, LAMBDA y : y # f)
        cell(seq) == SelectSeq(seq, LAMBDA x : ~(x.t = t /\ x.f = f))
    IN [SetTab(Fa, t, [tb EXCEPT !.pk = s(@), !.df = s(@)]) EXCEPT
            !.dt = cell(@), !.dv = cell(@), !.tips = cell(@),
            !.fks = SelectSeq(@, LAMBDA k : \A p \in 1..Len(k.m) : ~(k.nt = t /\ k.m[p][1] = f) /\ ~(k.ft = t /\ k.m[p][2] = f))]
InsAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
AddField(Fa, t, f, pk, pos) ==
    LET tb == Tab(Fa, t)
        at(s) == IF pos < 0 THEN Len(s) ELSE pos
        B == SetTab(Fa, t, IF pk THEN [tb EXCEPT !.pk = InsAt(@, at(@), f)] ELSE [tb EXCEPT !.df = InsAt(@, at(@), f)])
    IN IF pk THEN B ELSE [B EXCEPT !.dv = Append(@, [t |-> t, f |-> f, v |-> Zero])]
AddTable(Fa, t, pk, df) ==
    LET tb == [t |-> t, pk |-> pk, df |-> df, kind |-> "std"]
    IN [Fa EXCEPT !.tables = Append(@, tb), !.dv = @ \o Zeros(tb)]

\* the lower case renderings of the resulting names (e.lo of the new name) must not clash; e.clash says
\* whether they do
EditFac(Fa, e) ==
    CASE e.k = "addtable" ->
            IF ~HasTab(Fa, e.t) /\ e.bad = "" /\ ~e.clash /\ Len(e.pk) + Len(e.df) > 0
            THEN Yes(AddTable(Fa, e.t, e.pk, e.df)) ELSE No(Fa)
      [] e.k = "addcol" ->
            LET n == IF e.kind = "primary key" THEN Len(PK(Fa, e.t)) ELSE Len(DF(Fa, e.t))
            IN IF /\ OwnTable(Fa, e.t) /\ ~InSeq(Fields(Fa, e.t), e.fld) /\ e.bad = "" /\ ~e.clash
                  /\ e.kind \in {"primary key", "data"}
                  /\ e.pos >= -1 /\ e.pos <= n
                  /\ ~(e.kind = "primary key" /\ Tab(Fa, e.t).kind = "gen")
               THEN Yes(AddField(Fa, e.t, e.fld, e.kind = "primary key", e.pos)) ELSE No(Fa)
      [] e.k = "rmcol" -> IF OwnField(Fa, e.t, e.fld) /\ Len(Fields(Fa, e.t)) > 1 THEN Yes(RmField(Fa, e.t, e.fld)) ELSE No(Fa)
      [] e.k = "rename" -> IF OwnField(Fa, e.t, e.fld) /\ ~InSeq(Fields(Fa, e.t), e.new) /\ e.bad = "" /\ ~e.clash
                           THEN Yes(RenField(Fa, e.t, e.fld, e.new)) ELSE No(Fa)

---------------------------------------------------------------------------
(* Parameters *)
DateOf(s) == CASE s = "2020-01-02" -> "2020-01-02T00:00:00"
               [] s = "2021-12-31" -> "2021-12-31T00:00:00"
               [] s = "Jan 5 2021" -> "2021-01-05T00:00:00"
               [] s = "2019-06-07 08:09:10" -> "2019-06-07T08:09:10"
               [] s = "2022/03/04" -> "2022-03-04T00:00:00"
               [] OTHER -> s
ParamDefault(p) == IF p.typed /\ p.ty.dt /\ IsStr(p.v) THEN V("date", 0, DateOf(p.v.s)) ELSE p.v
FullParams(Fa, D) ==    \* set of <<key value, value>>
    LET rows == Range(Rows(D, "parameters"))
        stored(k) == \E r \in rows : Norm(r[1]) = k
    IN {<<Norm(r[1]), r[2]>> : r \in rows} \cup
       {<<Str(Fa.params[i].p), ParamDefault(Fa.params[i])>> : i \in {j \in 1..Len(Fa.params) : ~stored(Str(Fa.params[j].p))}}
FullParamsClauses(F, O, e) ==
    LET Fa == FacOf(F, O, e)
        R == e.ret.full
    IN IF Fa.params = <<>> THEN Bad(<< <<"params.refuse", ~e.ret.ok>> >>)
       ELSE IF ~e.ret.ok THEN {"params.raise"}
       ELSE Bad(<< <<"params.full", {<<Norm(R[i].p), R[i].v>> : i \in 1..Len(R)} = FullParams(Fa, O[e.o].tabs)>> >>)

---------------------------------------------------------------------------
(* Listings *)
SchemaClauses(Fa, e) ==
    Bad(<< <<"schema.tables", /\ e.ret.ok
                              /\ TabRecs(e.ret.tables) = TabRecs(NoGens(Fa).tables) /\ Len(e.ret.tables) = Len(Fa.tables)>> >>)
FKListClauses(Fa, e) ==
    LET R == e.ret.fks
    IN IF ~e.ret.ok THEN {"fklist.raise"}
       ELSE Bad(<< <<"fklist.once", Len(R) = Len(Fa.fks) /\ Cardinality(FKSetOf(R)) = Len(R) /\ FKSetOf(R) = FKSetOf(Fa.fks)>>,
                   <<"fklist.card", \A i \in 1..Len(R) : R[i].card = Card(Fa, R[i])[1] \o "-to-" \o Card(Fa, R[i])[2]>> >>)
=============================================================================
