----------------------------- MODULE OpsStore -----------------------------
(* Files: what writers put into CSV, JSON, SQLite and Excel, what readers make of them,   *)
(* how names are matched, when overwriting is refused, which trailing rows are dropped.   *)
(*                                                                                        *)
(* A store S is [id, fmt, exists, tabs : Seq([name, form, cols, aff, rows])] - the raw    *)
(* content, read by the harness without ticdat.  cols = <<>> means positional cells.      *)
(* lx maps every text that occurs to its lexical facts:                                   *)
(*   num (the number it denotes, or other), date (ISO or ""), low (lower case), norm      *)
(*   (lower case, blanks as underscores), pretty, na (a pandas NA text), bl ("T", "F", ""),*)
(*   sqln (the number SQLite affinity makes of it, or other), cr (has carriage returns)   *)
EXTENDS OpsFactory

U    == V("unset", 0, "")        \* a value that is not settled
NoV  == V("other", 0, "none")
Neg(v) == V(v.k, -v.n, v.s)
IsU(v) == v.k = "unset"

FlagOff(Fa)  == IsStr(Fa.inf)
FlagNum(Fa)  == Fa.inf.k = "num"
FlagNull(Fa) == IsNull(Fa.inf)
HasStrs(ty)  == ty.any \/ ty.strs # <<>>
MultiType(ty) == ~ty.dt /\ ty.num /\ HasStrs(ty)
StrType(ty)   == ~ty.dt /\ ~ty.num /\ HasStrs(ty)
IsMulti(Fa, t, f) == TypeOf(Fa, t, f) # <<>> /\ MultiType(TypeOf(Fa, t, f)[1]) /\ Fa.munge
IsDT(Fa, t, f)    == TypeOf(Fa, t, f) # <<>> /\ TypeOf(Fa, t, f)[1].dt
Params(Fa, t) == t = "parameters" /\ Fa.params # <<>>

\* the infinity that null stands for in a field
Infs(Fa, t, f) == LET T == TypeOf(Fa, t, f)
                  IN IF ~FlagNull(Fa) \/ T = <<>> THEN {}
                     ELSE IF ~T[1].num \/ Valid(T[1], Null) THEN {} ELSE {x \in {PInf, MInf} : Valid(T[1], x)}
Bias(Fa, t, f) == IF Infs(Fa, t, f) = {} THEN <<>> ELSE <<CHOOSE x \in Infs(Fa, t, f) : TRUE>>
\* null cannot stand for two infinities
Ambiguous(Fa) == \E t \in TabNames(Fa) : Tab(Fa, t).kind # "generic" /\ \E f \in Range(Fields(Fa, t)) : Cardinality(Infs(Fa, t, f)) = 2

Float(lx, v) == CASE IsNum(v) -> v [] IsBool(v) -> Num(4 * v.n) [] IsStr(v) -> lx[v.s].num [] OTHER -> NoV
AsDate(lx, v) == CASE IsDate(v) -> v [] IsStr(v) /\ lx[v.s].date # "" -> V("date", 0, lx[v.s].date) [] OTHER -> NoV
Parses(lx, v) == Float(lx, v).k # "other"

---------------------------------------------------------------------------
(* Writing *)
WVal(Fa, t, f, v) ==
    CASE t = "parameters" -> v
      [] Bias(Fa, t, f) # <<>> /\ v = Bias(Fa, t, f)[1] -> Null
      [] FlagNum(Fa) /\ IsNum(v) /\ NumLt(Fa.inf, v) -> Fa.inf
      [] FlagNum(Fa) /\ IsNum(v) /\ NumLt(v, Neg(Fa.inf)) -> Neg(Fa.inf)
      [] OTHER -> v

InfText(w) == IF w = PInf THEN "inf" ELSE "-inf"
\* does the raw cell c denote the value w ?
Denotes(fl, fmt, form, lx, aff, w, c) ==
    LET txt(x) == IsStr(c) /\ c.s = x
        isnum == IF IsNum(c) THEN c = w ELSE FALSE
        datetxt == IsStr(c) /\ AsDate(lx, c) = w
    IN CASE fmt = "csv" ->
              (CASE IsNull(w) -> txt("") [] IsStr(w) -> c = w [] IsNum(w) -> IsStr(c) /\ lx[c.s].num = w
                 [] IsBool(w) -> IsStr(c) /\ lx[c.s].bl = (IF w.n = 1 THEN "T" ELSE "F") [] IsDate(w) -> datetxt [] OTHER -> FALSE)
         [] fmt = "json" -> IF IsDate(w) THEN datetxt ELSE c = w
         [] fmt \in {"sqlite", "sqltext", "mdb"} ->
              LET b == IF ~IsBool(w) THEN w ELSE IF fl = "tic" THEN Str(IF w.n = 1 THEN "True" ELSE "False") ELSE IntV(w.n)
              IN (CASE IsDate(w) -> datetxt
                    [] fmt = "sqltext" /\ b.k = "inf" -> txt(InfText(b))
                    [] aff = "num" /\ IsStr(b) -> c = (IF lx[b.s].sqln.k = "other" THEN b ELSE lx[b.s].sqln)
                    [] aff = "text" /\ IsNum(b) -> IsStr(c) /\ lx[c.s].num = b
                    [] OTHER -> c = b)
         [] fmt = "xlsx" ->
              (CASE IsStr(w) /\ lx[w.s].cr -> IsStr(c)   \* carriage returns are escaped by the format
                 [] w.k = "inf" -> txt(InfText(w)) [] w = Str("") -> IsNull(c) [] IsDate(w) -> IF fl = "tic" THEN datetxt ELSE c = w
                 [] OTHER -> c = w)
         [] fmt = "xls" -> (CASE w = Str("") -> IsNull(c) [] IsDate(w) -> datetxt [] OTHER -> c = w)

\* tables a writer writes, under which name
Pretty(Fa, tabs, lx, on) == on /\ Cardinality({lx[t].pretty : t \in tabs}) = Cardinality(tabs)
WTabs(Fa, fl, D) == {t \in TabNames(Fa) : ~(fl = "tic" /\ Tab(Fa, t).kind = "generic" /\ Rows(D, t) = <<>>)}
\* a script without schema shows no trace of empty tables
WShown(Fa, fl, new, D) == {t \in WTabs(Fa, fl, D) : new.fmt = "sqltext" /\ ~new.schema => Rows(D, t) # <<>>}
WName(Fa, fl, fmt, D, lx, e, t) ==
    LET n == IF Pretty(Fa, WTabs(Fa, fl, D), lx, e.pretty) THEN lx[t].pretty ELSE t
    IN IF fmt \in {"xls", "xlsx"} THEN lx[n].cut ELSE n
WCols(Fa, D, t) == IF Tab(Fa, t).kind = "generic" THEN TabRec(D, t).cols ELSE Fields(Fa, t)

RawCell(tab, flds, i, f) ==
    IF i > Len(tab.rows) THEN Null
    ELSE IF tab.cols = <<>> THEN tab.rows[i][PosIn(flds, f)] ELSE tab.rows[i][PosIn(tab.cols, f)]
AffOf(tab, f) == IF tab.aff = <<>> THEN "none" ELSE tab.aff[PosIn(tab.cols, f)]
\* the raw table tab from row base+1 on holds exactly the table t of D
TabWritten(Fa, fl, fmt, lx, D, t, tab, base) ==
    LET flds == WCols(Fa, D, t)
        rows == Rows(D, t)
        excel == fmt \in {"xls", "xlsx"}
        gen == Tab(Fa, t).kind = "generic"
    IN /\ IF excel THEN Len(tab.rows) <= Len(rows) ELSE Len(tab.rows) = base + Len(rows)
       /\ tab.cols # <<>> => IF fl = "tic" /\ fmt \in {"sqlite", "mdb"}      \* existing tables keep their other columns
                             THEN Range(flds) \subseteq Range(tab.cols)
                             ELSE Range(tab.cols) = Range(flds) /\ Len(tab.cols) = Len(flds)
       /\ tab.cols = <<>> => \A i \in 1..Len(tab.rows) : Len(tab.rows[i]) = Len(flds)
       /\ \A i \in 1..Len(rows) : \A j \in 1..Len(flds) :
             LET w == IF gen /\ fl = "pan" THEN rows[i][j] ELSE WVal(Fa, t, flds[j], rows[i][j])
             IN Denotes(fl, fmt, tab.form, lx, AffOf(tab, flds[j]), w, RawCell(tab, flds, base + i, flds[j]))

NamedIn(tabs, n) == {i \in 1..Len(tabs) : tabs[i].name = n}
SqlNamed(lx, tabs, n) == {i \in 1..Len(tabs) : lx[tabs[i].name].low = lx[n].low}
Matches(fmt, lx, tabs, t) ==
    {i \in 1..Len(tabs) : CASE fmt \in {"xls", "xlsx"} -> lx[tabs[i].name].normcut = lx[t].lowcut
                            [] fmt = "sqltext"         -> lx[tabs[i].name].low = lx[t].low
                            [] OTHER                   -> lx[tabs[i].name].norm = lx[t].low}
FieldMatch(fl, form, lx, tab, f) ==
    {j \in 1..Len(tab.cols) : IF fl = "pan" \/ form \in {"dicts", "split"} THEN tab.cols[j] = f ELSE lx[tab.cols[j]].low = lx[f].low}

\* writers that take a permission refuse when something is in the way
WriteRefused(Fa, fl, e, s, D, lx) ==
    LET W == WTabs(Fa, fl, D)
        name(t) == WName(Fa, fl, s.fmt, D, lx, e, t)
    IN CASE s.fmt = "mdb" /\ (~s.exists \/ \E t \in TabNames(Fa) : Tab(Fa, t).kind = "generic") -> TRUE
         [] fl = "pan" -> s.fmt = "sqlite" /\ e.exists = "fail" /\ s.exists /\ \E t \in W : SqlNamed(lx, s.tabs, name(t)) # {}
         [] s.fmt = "csv" -> ~e.ov /\ s.exists /\ \E t \in W : NamedIn(s.tabs, name(t)) # {}
         [] s.fmt \in {"json", "xls", "xlsx", "sqltext"} -> ~e.ov /\ s.exists
         [] s.fmt \in {"sqlite", "mdb"} ->
              s.exists /\ \E t \in W :
                 LET N == SqlNamed(lx, s.tabs, t)
                 IN \/ N = {} \/ Cardinality(Matches(s.fmt, lx, s.tabs, t)) > 1
                    \/ \E i \in N : \/ ~e.ov /\ s.tabs[i].rows # <<>>
                                    \/ \E f \in Range(WCols(Fa, D, t)) : FieldMatch("tic", "cols", lx, s.tabs[i], f) = {}
\* formats that cannot hold the schema at all
WriteImpossible(Fa, fl, fmt, e) ==
    LET kinds == {Tab(Fa, t).kind : t \in TabNames(Fa)}
    IN \/ fmt = "json" /\ e.form # "split" /\ "generic" \in kinds
       \/ fmt = "json" /\ fl = "tic" /\ kinds \cap {"generic", "gen"} # {}
Written(Fa, fl, e, old, new, D, lx) ==
    LET W == WShown(Fa, fl, new, D)
        name(t) == WName(Fa, fl, new.fmt, D, lx, e, t)
        keep == IF new.fmt \in {"csv", "sqlite", "mdb"} /\ old.exists
                THEN {i \in 1..Len(old.tabs) : \A t \in W : IF new.fmt \in {"sqlite", "mdb"} THEN lx[name(t)].low # lx[old.tabs[i].name].low
                                                            ELSE name(t) # old.tabs[i].name}
                ELSE {}
        base(t) == IF fl = "pan" /\ new.fmt = "sqlite" /\ e.exists = "append" /\ old.exists
                   THEN SqlNamed(lx, old.tabs, name(t)) ELSE {}
        at(t) == IF new.fmt \in {"sqlite", "mdb"} THEN SqlNamed(lx, new.tabs, name(t)) ELSE NamedIn(new.tabs, name(t))
    IN [tables |-> /\ new.exists
                   /\ Len(new.tabs) = Cardinality(keep) + Cardinality(W)
                   /\ \A t \in W : Cardinality(at(t)) = 1,
        rest |-> \A i \in keep : \E j \in 1..Len(new.tabs) : new.tabs[j] = old.tabs[i],
        cells |-> \A t \in W : \A i \in at(t) :
                     LET b == IF base(t) = {} THEN <<>> ELSE old.tabs[CHOOSE j \in base(t) : TRUE].rows
                     IN /\ TabWritten(Fa, fl, new.fmt, lx, D, t, new.tabs[i], Len(b))
                        /\ SubSeq(new.tabs[i].rows, 1, Len(b)) = b]

---------------------------------------------------------------------------
(* Reading rows: dict flavour *)
General(Fa, lx, t, f, x) ==
    LET d == IF IsDT(Fa, t, f) /\ ~IsNull(x) THEN AsDate(lx, x) ELSE NoV
        y == IF IsMulti(Fa, t, f) /\ Parses(lx, x) THEN Float(lx, x) ELSE x
    IN CASE x.k = "other" -> U        \* cells of kinds the specification does not know
         [] t = "parameters" -> x
         [] d # NoV -> d
         [] FlagNum(Fa) /\ IsNum(y) /\ NumLe(Fa.inf, y) -> PInf
         [] FlagNum(Fa) /\ IsNum(y) /\ NumLe(y, Neg(Fa.inf)) -> MInf
         [] IsNull(y) /\ Bias(Fa, t, f) # <<>> -> Bias(Fa, t, f)[1]
         [] OTHER -> y
Nullish(Fa, t, f) ==       \* blank text stands for null
    LET T == TypeOf(Fa, t, f) IN IF T # <<>> THEN T[1].null ELSE DefaultOf(Fa, t, f) = <<Null>>
TryFloat(Fa, t, f) ==
    \/ Tab(Fa, t).kind = "generic"
    \/ LET T == TypeOf(Fa, t, f) IN IF T # <<>> THEN T[1].num ELSE DefaultOf(Fa, t, f) # <<>> /\ IsNum(DefaultOf(Fa, t, f)[1])
InfLike(lx, c) == IsStr(c) /\ lx[c.s].low \in {"inf", "-inf"}
DecTic(Fa, fmt, lx, t, f, c, tinf) ==
    CASE fmt = "csv" ->
           IF Params(Fa, t) THEN c
           ELSE General(Fa, lx, t, f,
                        CASE c.s = "" /\ (Nullish(Fa, t, f) \/ Bias(Fa, t, f) # <<>>) -> Null
                          [] TryFloat(Fa, t, f) /\ Parses(lx, c) -> Float(lx, c)
                          [] OTHER -> c)
      [] fmt \in {"json", "pg", "mdb"} -> General(Fa, lx, t, f, c)
      [] fmt \in {"sqlite", "sqltext"} ->
           (CASE InfLike(lx, c) /\ FlagOff(Fa) /\ ~Params(Fa, t) -> lx[c.s].num
              [] IsStr(c) /\ lx[c.s].low = "true" -> BoolV(TRUE)
              [] IsStr(c) /\ lx[c.s].low = "false" -> BoolV(FALSE)
              [] OTHER -> General(Fa, lx, t, f, c))
      [] OTHER ->
           LET x == IF fmt # "xls" THEN c ELSE CASE IsNull(c) -> Str("") [] IsBool(c) -> IntV(c.n) [] OTHER -> c
           IN CASE x = Str("") /\ Nullish(Fa, t, f) -> Null
                [] tinf /\ InfLike(lx, x) /\ FlagOff(Fa) /\ ~Params(Fa, t) -> lx[x.s].num
                [] x = Str("") /\ Bias(Fa, t, f) # <<>> -> Bias(Fa, t, f)[1]
                [] fmt = "xls" /\ IsDate(x) /\ ~IsDT(Fa, t, f) -> U
                [] fmt = "xls" /\ IsNum(x) /\ IsDT(Fa, t, f) -> U
                [] OTHER -> General(Fa, lx, t, f, x)
\* the parameters table is read back from text
PType(Fa, k) == LET S == {i \in 1..Len(Fa.params) : IsStr(k) /\ Fa.params[i].p = k.s}
                IN IF S = {} THEN <<>> ELSE LET p == Fa.params[CHOOSE i \in S : TRUE] IN IF p.typed THEN <<p.ty>> ELSE <<>>
ParamTic(Fa, lx, k, v) ==
    LET T == PType(Fa, k)
    IN CASE T # <<>> /\ T[1].null /\ v = Str("") /\ ~Valid(T[1], v) -> Null
         [] T # <<>> /\ T[1].dt -> IF IsNull(v) \/ AsDate(lx, v) = NoV THEN v ELSE AsDate(lx, v)
         [] T = <<>> \/ T[1].num -> IF Parses(lx, v) THEN Float(lx, v) ELSE v
         [] OTHER -> v

---------------------------------------------------------------------------
(* Reading columns: frame flavour, where pandas decides per column *)
StrCol(Fa, t, f) == \/ TypeOf(Fa, t, f) # <<>> /\ StrType(TypeOf(Fa, t, f)[1])
                    \/ Params(Fa, t)
AnyStrCol(Fa, t) == \E i \in 1..Len(Fields(Fa, t)) : StrCol(Fa, t, Fields(Fa, t)[i])
Each(cs, g(_)) == TLCEval([i \in 1..Len(cs) |-> g(cs[i])])
Unsettled(cs) == [i \in 1..Len(cs) |-> U]
Infer(Fa, fmt, form, lx, t, f, cs) ==
    LET str == Tab(Fa, t).kind # "generic" /\ StrCol(Fa, t, f)
        na(c) == IsNull(c) \/ (IsStr(c) /\ lx[c.s].na)
        live == {i \in 1..Len(cs) : ~na(cs[i])}
        allnum == \A i \in live : Parses(lx, cs[i]) /\ ~IsBool(cs[i])
        allbool == \A i \in live : IsBool(cs[i]) \/ (IsStr(cs[i]) /\ lx[cs[i].s].bl # "")
        some(k) == \E i \in live : cs[i].k = k
        blank(c) == IF na(c) THEN Null ELSE c
        asb(c) == IF na(c) THEN Null ELSE IF IsBool(c) THEN c ELSE BoolV(lx[c.s].bl = "T")
        asn(c) == IF na(c) THEN Null ELSE Float(lx, c)
    IN CASE fmt \in {"csv", "xlsx"} /\ str ->
              Each(cs, LAMBDA c : CASE na(c) -> Null [] IsStr(c) -> c
                                    [] fmt = "xlsx" /\ Params(Fa, t) /\ c.k \in {"num", "inf"} -> c
                                    [] OTHER -> U)
         [] fmt \in {"csv", "xlsx"} ->
              (CASE live # {} /\ allnum -> Each(cs, asn)
                 [] live # {} /\ allbool -> IF fmt = "xlsx" /\ Cardinality(live) < Len(cs) THEN Each(cs, LAMBDA c : IF na(c) THEN Null ELSE U) ELSE Each(cs, asb)
                 [] some("bool") /\ (some("num") \/ some("str")) -> Unsettled(cs)
                 [] some("date") /\ (some("num") \/ some("bool")) -> Unsettled(cs)
                 [] OTHER -> Each(cs, blank))
         [] fmt = "json" /\ form = "split" /\ str ->
              Each(cs, LAMBDA c : CASE IsStr(c) -> c
                                    [] IsNull(c) /\ ~Params(Fa, t) -> IF TypeOf(Fa, t, f)[1].null /\ ~(\E i \in 1..Len(cs) : cs[i].k \notin {"str", "null"})
                                                                      THEN Null ELSE U
                                    [] IsNull(c) -> Null
                                    [] Params(Fa, t) /\ c.k \in {"num", "inf"} -> c
                                    [] OTHER -> U)
         [] fmt = "json" /\ form = "split" /\ Tab(Fa, t).kind # "generic" /\ AnyStrCol(Fa, t) ->
              LET nn == {i \in 1..Len(cs) : ~IsNull(cs[i])}
              IN CASE nn # {} /\ (\A i \in nn : IsStr(cs[i]) \/ IsNum(cs[i])) /\ (\A i \in nn : Parses(lx, cs[i])) ->
                        Each(cs, LAMBDA c : IF IsNull(c) THEN Null ELSE Float(lx, c))
                   [] (\E i \in nn : IsBool(cs[i])) /\ (\E i \in 1..Len(cs) : ~IsBool(cs[i])) -> Unsettled(cs)
                   [] OTHER -> cs
         [] OTHER -> cs
NoneText(lx, v) == IsStr(v) /\ lx[v.s].low = "none"
PanAdjust(Fa, fmt, lx, t, f, v) ==
    LET m == IF IsMulti(Fa, t, f) /\ Parses(lx, v) THEN Float(lx, v) ELSE v
        n == IF fmt = "json" /\ NoneText(lx, m) /\ StrCol(Fa, t, f) /\ TypeOf(Fa, t, f)[1].null THEN Null ELSE m
    IN CASE v.k = "other" -> U
         [] t = "parameters" \/ IsU(v) -> v
         [] FlagNum(Fa) /\ IsNum(m) /\ NumLe(Fa.inf, m) -> PInf
         [] FlagNum(Fa) /\ IsNum(m) /\ NumLe(m, Neg(Fa.inf)) -> MInf
         [] IsNull(n) /\ Bias(Fa, t, f) # <<>> -> Bias(Fa, t, f)[1]
         [] IsDT(Fa, t, f) /\ IsBool(v) -> U
         [] IsDT(Fa, t, f) /\ ~IsNull(v) /\ AsDate(lx, v) # NoV -> AsDate(lx, v)
         [] OTHER -> n
ParamPan(Fa, fmt, lx, k, v) ==
    LET T == PType(Fa, k)
        can(x) == T = <<>> \/ Valid(T[1], x)
    IN CASE IsU(v) \/ IsU(k) -> U
         [] T # <<>> /\ T[1].dt /\ IsStr(v) /\ AsDate(lx, v) # NoV -> AsDate(lx, v)
         [] fmt = "json" /\ NoneText(lx, v) /\ can(Null) -> Null
         [] IsNull(v) -> Null
         [] T # <<>> /\ ~T[1].num -> IF IsStr(v) \/ can(v) THEN v ELSE U
         [] Parses(lx, v) -> Float(lx, v)
         [] OTHER -> v

---------------------------------------------------------------------------
(* Whole tables.  Result [ok, unknown, rows, cols, n] *)
RES(ok, rows, cols) == [ok |-> ok, rows |-> rows, cols |-> cols]
AllNull(row) == \A j \in 1..Len(row) : IsNull(row[j])
RECURSIVE TrimTail(_)
TrimTail(rows) == IF rows # <<>> /\ AllNull(rows[Len(rows)]) THEN TrimTail(SubSeq(rows, 1, Len(rows) - 1)) ELSE rows

PFmt(fmt) == IF fmt = "xls" THEN "xlsx" ELSE fmt      \* pandas reads both alike
Positional(tab) == tab.cols = <<>>
ColAt(fl, lx, tab, flds, f) ==
    IF Positional(tab) THEN PosIn(flds, f) ELSE CHOOSE j \in FieldMatch(fl, tab.form, lx, tab, f) : TRUE
ReadPanTab(Fa, fmt, lx, t, tab, fill) ==
    LET gen == Tab(Fa, t).kind = "generic"
        raw == IF fmt = "xlsx" THEN TrimTail(tab.rows) ELSE tab.rows
        flds == IF gen THEN tab.cols ELSE Fields(Fa, t)
        has(f) == Positional(tab) \/ FieldMatch("pan", tab.form, lx, tab, f) # {}
        lack == {f \in Range(flds) : ~has(f)}
        short == Positional(tab) /\ raw # <<>> /\ \E i \in 1..Len(raw) : Len(raw[i]) < Len(flds)
        col(f) == IF has(f) THEN LET j == ColAt("pan", lx, tab, flds, f)
                                 IN Infer(Fa, fmt, tab.form, lx, t, f, [i \in 1..Len(raw) |-> raw[i][j]])
                  ELSE [i \in 1..Len(raw) |-> DefaultOf(Fa, t, f)[1]]
        cols0 == TLCEval([j \in 1..Len(flds) |-> col(flds[j])])
        cell(i, j) == CASE gen -> cols0[j][i]
                        [] Params(Fa, t) -> IF j = 2 THEN ParamPan(Fa, fmt, lx, cols0[1][i], cols0[2][i]) ELSE cols0[j][i]
                        [] OTHER -> PanAdjust(Fa, fmt, lx, t, flds[j], cols0[j][i])
        rows == TLCEval([i \in 1..Len(raw) |-> [j \in 1..Len(flds) |-> cell(i, j)]])
    IN IF short \/ (lack # {} /\ (~fill \/ \E f \in lack : DefaultOf(Fa, t, f) = <<>>)) THEN RES(FALSE, <<>>, <<>>)
       ELSE RES(TRUE, IF fmt = "xlsx" /\ Fa.trail = "prune" THEN TrimTail(rows) ELSE rows, IF gen THEN tab.cols ELSE <<>>)

\* numeric affinity of the columns a reader creates for a script without schema
ReadAff(Fa, lx, t, f, c) ==
    IF IsStr(c) /\ Tab(Fa, t).kind # "generic" /\ InSeq(DF(Fa, t), f) /\ ~Params(Fa, t) /\ IsNum(Def0(Fa, t, f)) /\ lx[c.s].sqln.k # "other"
    THEN lx[c.s].sqln ELSE c
ReadTicTab(Fa, fmt, lx, t, tab, tinf, own) ==
    LET gen == Tab(Fa, t).kind = "generic"
        raw == IF fmt = "xlsx" /\ Fa.trail = "prune" THEN TrimTail(tab.rows) ELSE tab.rows
        flds == IF gen THEN tab.cols ELSE Fields(Fa, t)
        hits(f) == FieldMatch("tic", tab.form, lx, tab, f)
        badhdr == ~Positional(tab) /\ ~gen /\ tab.form # "dicts" /\ \E f \in Range(flds) : Cardinality(hits(f)) # 1
        baddict == tab.form = "dicts" /\ raw # <<>> /\ \E j \in 1..Len(tab.cols) : ~InSeq(flds, tab.cols[j])
        badpos == Positional(tab) /\ \E i \in 1..Len(raw) : Len(raw[i]) # Len(flds)
        val(i, f) == IF tab.form = "dicts" /\ hits(f) = {} THEN Def0(Fa, t, f)
                     ELSE LET c == raw[i][ColAt("tic", lx, tab, flds, f)]
                          IN DecTic(Fa, fmt, lx, t, f, IF own THEN ReadAff(Fa, lx, t, f, c) ELSE c, tinf)
        cell(i, j) == IF Params(Fa, t) /\ j = 2 THEN ParamTic(Fa, lx, val(i, flds[1]), val(i, flds[2])) ELSE val(i, flds[j])
    IN IF gen /\ fmt \in {"xls", "xlsx"} THEN ReadPanTab(Fa, "xlsx", lx, t, tab, FALSE)
       ELSE IF badpos \/ baddict \/ (badhdr /\ ~(fmt = "csv" /\ raw = <<>>)) THEN RES(FALSE, <<>>, <<>>)
       ELSE IF badhdr THEN RES(TRUE, <<>>, <<>>)
       ELSE RES(TRUE, TLCEval([i \in 1..Len(raw) |-> [j \in 1..Len(flds) |-> cell(i, j)]]), IF gen THEN tab.cols ELSE <<>>)

\* everything a reader makes of a store: [ok, lost, tabs]
IsSplit(s) == s.fmt = "json" /\ s.tabs # <<>> /\ \A i \in 1..Len(s.tabs) : s.tabs[i].form = "split"
ReadStore(Fa, fl, e, s, lx) ==
    LET hit(t) == Matches(s.fmt, lx, s.tabs, t)
        nt == Len(Fa.tables)
        pan == fl = "pan" \/ IsSplit(s)
        one(t) == IF Cardinality(hit(t)) > 1 \/ (s.fmt = "sqltext" /\ hit(t) = {} /\ (s.schema \/ Tab(Fa, t).kind = "generic")) THEN RES(FALSE, <<>>, <<>>)
                  ELSE IF hit(t) = {} THEN RES(TRUE, <<>>, <<>>)
                  ELSE LET tab == s.tabs[CHOOSE i \in hit(t) : TRUE]
                       IN IF pan THEN ReadPanTab(Fa, PFmt(s.fmt), lx, t, tab, e.fill) ELSE ReadTicTab(Fa, s.fmt, lx, t, tab, e.tinf, s.fmt = "sqltext" /\ ~s.schema)
        res == TLCEval([i \in 1..nt |-> one(Fa.tables[i].t)])
        tabs == [i \in 1..nt |-> [t |-> Fa.tables[i].t, rows |-> res[i].rows, cols |-> res[i].cols]]
        kinds == {Tab(Fa, t).kind : t \in TabNames(Fa)}
        unfit == \/ s.fmt = "mdb" /\ (fl = "pan" \/ "generic" \in kinds)
                 \/ fl = "tic" /\ s.fmt = "json" /\ kinds \cap {"generic", "gen"} # {}
                 \/ fl = "tic" /\ s.fmt \in {"xls", "xlsx"} /\ "gen" \in kinds /\ e.tinf
                 \/ fl = "tic" /\ s.fmt \in {"xls", "xlsx"} /\ "generic" \in kinds /\ (~e.tinf \/ ~s.hdr)
                 \/ fl = "tic" /\ s.fmt = "sqltext" /\ "gen" \in kinds
                 \/ fl = "pan" /\ s.fmt = "json" /\ s.tabs # <<>> /\ ~IsSplit(s) /\ "generic" \in kinds
        lost == fl = "tic" /\ DupLost(Fa, tabs)
    IN [ok |-> s.exists /\ ~unfit /\ \A i \in 1..nt : res[i].ok,
        dups |-> lost /\ s.fmt = "json",
        tabs |-> IF fl = "tic" THEN DedupeTabs(Fa, tabs) ELSE tabs]

\* rows agree wherever the expectation is settled
RowFits(a, x) == Len(a) = Len(x) /\ \A j \in 1..Len(x) : IsU(x[j]) \/ a[j] = x[j]
TabFits(Fa, fl, a, x) ==
    LET keyed == fl = "tic" /\ Tab(Fa, x.t).kind = "std" /\ Len(PK(Fa, x.t)) > 0
        ukey == keyed /\ \E i \in 1..Len(x.rows) : \E j \in 1..Len(PK(Fa, x.t)) : IsU(x.rows[i][j])
    IN \/ ukey
       \/ /\ Len(a.rows) = Len(x.rows)
          /\ IF keyed THEN \A i \in 1..Len(x.rows) : RowFits(a.rows[i], x.rows[i]) \/ \E j \in 1..Len(a.rows) : RowFits(a.rows[j], x.rows[i])
             ELSE \A i \in 1..Len(x.rows) : RowFits(a.rows[i], x.rows[i])
          /\ (Tab(Fa, x.t).kind = "generic" /\ x.rows # <<>>) => a.cols = x.cols
TabsFit(Fa, fl, A, X) == Len(A) = Len(X) /\ \A i \in 1..Len(X) : A[i].t = X[i].t /\ TabFits(Fa, fl, A[i], X[i])

---------------------------------------------------------------------------
(* What each format can represent, stated on its own: such data comes back as it was. *)
RepTic(Fa, fmt, lx, t, f, v, k) ==
    LET T == TypeOf(Fa, t, f)
        gen == Tab(Fa, t).kind = "generic"
        txt == IsStr(v)
        numeric == txt /\ Parses(lx, v)
        blank == v = Str("")
        excel == fmt \in {"xls", "xlsx"}
        sql == fmt \in {"sqlite", "sqltext"}
        pt == PType(Fa, k)
        ptnum == pt = <<>> \/ pt[1].num
        base == CASE txt -> /\ (excel => ~blank)
                            /\ (fmt = "xlsx" => ~lx[v.s].cr)
                            /\ (sql => lx[v.s].low \notin {"true", "false"})
                            /\ (fmt = "sqltext" => ~lx[v.s].cq)
                  [] IsBool(v) -> fmt \notin {"csv", "xls"}
                  [] v.k = "other" -> FALSE
                  [] OTHER -> TRUE
    IN base /\
       IF Params(Fa, t) /\ f = Fields(Fa, t)[2]
       THEN CASE txt -> ~(ptnum /\ numeric) /\ ~(pt # <<>> /\ pt[1].dt /\ AsDate(lx, v) # NoV) /\ ~(blank /\ pt # <<>> /\ pt[1].null /\ ~Valid(pt[1], v))
              [] IsNum(v) -> ptnum
              [] IsBool(v) -> ~ptnum
              [] IsDate(v) -> pt # <<>> /\ pt[1].dt
              [] IsNull(v) -> fmt \in {"json", "sqlite", "sqltext", "xlsx"} \/ (pt # <<>> /\ pt[1].null /\ ~Valid(pt[1], Str("")))
              [] OTHER -> FALSE
       ELSE IF Params(Fa, t) THEN txt
       ELSE IF t = "parameters"
       THEN CASE txt -> /\ ~(fmt = "csv" /\ ((TryFloat(Fa, t, f) /\ numeric) \/ (blank /\ Nullish(Fa, t, f))))
                        /\ ~((excel \/ sql) /\ FlagOff(Fa) /\ InfLike(lx, v))
                        /\ ~(sql /\ lx[v.s].sqln.k # "other" /\ DefaultOf(Fa, t, f) # <<>>)
              [] v.k = "inf" -> CASE fmt = "csv" -> TryFloat(Fa, t, f) [] fmt \in {"xlsx", "sqltext"} -> FlagOff(Fa) [] OTHER -> TRUE
              [] IsNum(v) -> fmt = "csv" => TryFloat(Fa, t, f)
              [] IsNull(v) -> fmt \notin {"csv", "xls"} \/ Nullish(Fa, t, f)
              [] IsDate(v) -> FALSE
              [] OTHER -> TRUE
       ELSE CASE txt -> /\ ~(IsMulti(Fa, t, f) /\ numeric)
                        /\ ~(IsDT(Fa, t, f) /\ AsDate(lx, v) # NoV)
                        /\ ~(fmt = "csv" /\ ((TryFloat(Fa, t, f) /\ numeric) \/ (blank /\ (Nullish(Fa, t, f) \/ Bias(Fa, t, f) # <<>>))))
                        /\ ~((excel \/ sql) /\ FlagOff(Fa) /\ InfLike(lx, v))
                        \* untyped SQLite columns with a numeric default turn numeric text into numbers
                        /\ ~(sql /\ lx[v.s].sqln.k # "other" /\ DefaultOf(Fa, t, f) # <<>>)
              [] v.k = "inf" -> CASE fmt = "xls" /\ IsDT(Fa, t, f) -> FALSE
                                  [] FlagNum(Fa) -> fmt = "csv" => TryFloat(Fa, t, f)
                                  [] FlagNull(Fa) /\ Bias(Fa, t, f) = <<v>> -> TRUE
                                  [] fmt = "csv" -> TryFloat(Fa, t, f)
                                  [] fmt \in {"xlsx", "sqltext"} -> FlagOff(Fa)
                                  [] OTHER -> TRUE
              [] IsNum(v) -> /\ fmt = "csv" => TryFloat(Fa, t, f)
                             /\ FlagNum(Fa) => NumLt(v, Fa.inf) /\ NumLt(Neg(Fa.inf), v)
                             /\ ~(fmt = "xls" /\ IsDT(Fa, t, f))
              [] IsNull(v) -> Bias(Fa, t, f) = <<>> /\ (fmt \notin {"csv", "xls"} \/ Nullish(Fa, t, f)) /\ ~gen
              [] IsBool(v) -> ~IsMulti(Fa, t, f) /\ ~IsDT(Fa, t, f) /\ ~gen
              [] IsDate(v) -> IsDT(Fa, t, f)
              [] OTHER -> FALSE
RowBlank(fmt, Fa, t, row) == \A j \in 1..Len(row) : IsNull(WVal(Fa, t, Fields(Fa, t)[j], row[j]))
\* completely empty rows leave no trace at the end of a sheet
TailOK(fmt, Fa, t, rows) == fmt \in {"xls", "xlsx"} => (rows = <<>> \/ Tab(Fa, t).kind = "generic" \/ ~RowBlank(fmt, Fa, t, rows[Len(rows)]))
RepTicTab(Fa, fmt, lx, tab) ==
    LET flds == IF Tab(Fa, tab.t).kind = "generic" THEN tab.cols ELSE Fields(Fa, tab.t)
    IN /\ TailOK(fmt, Fa, tab.t, tab.rows)
       /\ \A i \in 1..Len(tab.rows) : \A j \in 1..Len(flds) : RepTic(Fa, fmt, lx, tab.t, flds[j], tab.rows[i][j], tab.rows[i][1])

RepPanCol(Fa, fmt, form, lx, t, f, vs, ks) ==
    LET gen == Tab(Fa, t).kind = "generic"
        par == Params(Fa, t)
        live == {i \in 1..Len(vs) : ~IsNull(vs[i])}
        nulls == Cardinality(live) < Len(vs)
        every(k) == \A i \in live : vs[i].k = k
        nums == \A i \in live : IsNum(vs[i])
        text == {i \in live : IsStr(vs[i])}
        tok(i) == /\ fmt = "csv" => ~lx[vs[i].s].na
                  /\ fmt = "xlsx" => (~lx[vs[i].s].na /\ ~lx[vs[i].s].cr /\ vs[i].s # "")
                  /\ fmt = "json" => lx[vs[i].s].low # "none"
        inferred == fmt \in {"csv", "xlsx"} \/ (fmt = "json" /\ form = "split" /\ ~gen /\ AnyStrCol(Fa, t))
        looks == live # {} /\ ((\A i \in live : Parses(lx, vs[i])) \/ (\A i \in text : lx[vs[i].s].bl # ""))
        numsok == FlagNum(Fa) /\ t # "parameters" => \A i \in live : vs[i].k = "num" => NumLt(vs[i], Fa.inf) /\ NumLt(Neg(Fa.inf), vs[i])
    IN IF par /\ f = Fields(Fa, t)[2]
       THEN \A i \in 1..Len(vs) :
              LET T == PType(Fa, ks[i])
              IN CASE IsStr(vs[i]) -> tok(i) /\ ~((T = <<>> \/ T[1].num) /\ Parses(lx, vs[i])) /\ ~(T # <<>> /\ T[1].dt /\ AsDate(lx, vs[i]) # NoV)
                   [] IsNum(vs[i]) -> T = <<>> \/ T[1].num
                   [] IsNull(vs[i]) -> TRUE
                   [] OTHER -> FALSE
       ELSE IF par THEN \A i \in 1..Len(vs) : IsStr(vs[i]) /\ tok(i)
       ELSE CASE live = {} -> (nulls => Bias(Fa, t, f) = <<>>) /\ (fmt = "json" /\ form = "split" /\ nulls /\ StrCol(Fa, t, f) => TypeOf(Fa, t, f)[1].null)
              [] nums -> /\ ~(~gen /\ StrCol(Fa, t, f)) /\ numsok
                         /\ nulls => Bias(Fa, t, f) = <<>>
                         /\ ~IsDT(Fa, t, f)
              [] every("str") -> /\ \A i \in live : tok(i)
                                 /\ nulls => Bias(Fa, t, f) = <<>>
                                 /\ ~gen /\ IsMulti(Fa, t, f) => \A i \in live : ~Parses(lx, vs[i])
                                 /\ ~gen /\ IsDT(Fa, t, f) => \A i \in live : AsDate(lx, vs[i]) = NoV
                                 /\ inferred /\ (gen \/ ~StrCol(Fa, t, f)) => ~looks
                                 /\ (fmt = "json" /\ form = "split" /\ nulls /\ ~gen /\ StrCol(Fa, t, f)) => TypeOf(Fa, t, f)[1].null
              [] every("bool") -> /\ ~nulls /\ fmt # "sqlite" /\ ~gen /\ ~IsMulti(Fa, t, f) /\ ~IsDT(Fa, t, f) /\ ~StrCol(Fa, t, f)
              [] every("date") -> ~gen /\ IsDT(Fa, t, f)
              [] OTHER -> /\ ~gen /\ IsMulti(Fa, t, f) /\ numsok /\ (nulls => Bias(Fa, t, f) = <<>>)
                          /\ (inferred /\ FlagNull(Fa) /\ \A i \in live : vs[i].k # "num") => ~looks
                          /\ \A i \in live : IsNum(vs[i]) \/ (IsStr(vs[i]) /\ tok(i) /\ ~Parses(lx, vs[i]))
RepPanTab(Fa, fmt, form, lx, tab) ==
    LET gen == Tab(Fa, tab.t).kind = "generic"
        flds == IF gen THEN tab.cols ELSE Fields(Fa, tab.t)
        col(j) == [i \in 1..Len(tab.rows) |-> tab.rows[i][j]]
    IN /\ fmt = "xlsx" => (tab.rows = <<>> \/ gen \/ ~RowBlank(fmt, Fa, tab.t, tab.rows[Len(tab.rows)]))
       /\ \A j \in 1..Len(flds) : RepPanCol(Fa, fmt, form, lx, tab.t, flds[j], col(j), col(1))

---------------------------------------------------------------------------
(* Duplicate rows reported by the readers of the dict flavour: [t, k, n] per repeated key *)
DupFac(Fa) ==    \* duplicates in SQLite are searched without types, defaults and flags
    [Fa EXCEPT !.dt = <<>>, !.dv = <<>>, !.inf = Str("N/A"), !.params = <<>>]
DupStore(Fa, s, lx, t) ==
    LET hit == Matches(s.fmt, lx, s.tabs, t)
        tab == s.tabs[CHOOSE i \in hit : TRUE]
        raw == IF s.fmt = "xlsx" /\ Fa.trail = "prune" THEN TrimTail(tab.rows) ELSE tab.rows
        flds == Fields(Fa, t)
        Fb == IF s.fmt \in {"sqlite", "pg", "mdb"} THEN DupFac(Fa) ELSE Fa
        dec(f, c) == IF s.fmt = "json" THEN c ELSE DecTic(Fb, s.fmt, lx, t, f, c, TRUE)
        key(i) == [j \in 1..Len(PK(Fa, t)) |-> dec(PK(Fa, t)[j], raw[i][ColAt("tic", lx, tab, flds, PK(Fa, t)[j])])]
        keys == TLCEval([i \in 1..Len(raw) |-> NormSeq(key(i))])
        cnt(k) == Cardinality({i \in 1..Len(keys) : keys[i] = k})
    IN IF hit = {} THEN {} ELSE {<<t, k, cnt(k)>> : k \in {x \in Range(keys) : cnt(x) > 1}}
DupRefused(Fa, s, lx) ==
    \/ ~s.exists
    \/ s.fmt = "mdb" /\ \E t \in TabNames(Fa) : Tab(Fa, t).kind = "generic"
    \/ \E t \in TabNames(Fa) : Len(PK(Fa, t)) > 0 /\
          LET hit == Matches(s.fmt, lx, s.tabs, t)
          IN \/ Cardinality(hit) > 1
             \/ Cardinality(hit) = 1 /\ ~ReadTicTab(Fa, s.fmt, lx, t, s.tabs[CHOOSE i \in hit : TRUE], TRUE, FALSE).ok
=============================================================================
