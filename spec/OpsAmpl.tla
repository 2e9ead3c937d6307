----------------------------- MODULE OpsAmpl ------------------------------
(* Data sets handed to AMPL and taken back, templates of AMPL text; log files, progress,  *)
(* slices of series, row-wise application.                                                *)
EXTENDS OpsPg

SetOf(s) == {s[i] : i \in 1..Len(s)}

(* copy_to_ampl + set_ampl_data.  e = [o, ren : Seq([t, f, k, new]), exc : Seq(table),      *)
(* send : "no", "yes", names : Seq([t, n]), fail : table or ""].  k = "str" | "none" | "num" *)
(* ret : tabs : Seq([t, index, cols, rows]), sent : Seq([t, set]), sok                      *)
AmplTables(Fa, e) == {t \in TabNames(Fa) : Len(PK(Fa, t)) > 0} \ SetOf(e.exc)
Frame(Fa, D, e, t) == SetOf(Fields(Fa, t))
ToAmplRefused(Fa, D, e) ==
    \/ ~(SetOf(e.exc) \subseteq TabNames(Fa))
    \/ \E i \in 1..Len(e.ren) : LET r == e.ren[i] IN
          \/ r.t \notin AmplTables(Fa, e)
          \/ r.f \notin Frame(Fa, D, e, r.t)
          \/ r.k = "num"
          \/ (r.k = "none" \/ r.new = "") /\ r.f \in SetOf(PK(Fa, r.t))
\* the name a field gets: <<>> when it is left out
NewName(e, t, f) ==
    LET H == {i \in 1..Len(e.ren) : e.ren[i].t = t /\ e.ren[i].f = f}
    IN IF H = {} THEN <<f>> ELSE LET r == e.ren[CHOOSE i \in H : TRUE] IN IF r.k = "none" \/ r.new = "" THEN <<>> ELSE <<r.new>>
AmplIndex(Fa, e, t) == [i \in 1..Len(PK(Fa, t)) |-> NewName(e, t, PK(Fa, t)[i])[1]]
AmplFields(Fa, e, t) == SelectSeq(Fields(Fa, t), LAMBDA f : NewName(e, t, f) # <<>>)
AmplTabFits(Fa, D, e, t, x) ==
    LET fs == AmplFields(Fa, e, t)
        names == [i \in 1..Len(fs) |-> NewName(e, t, fs[i])[1]]
        at(i) == PosIn(x.cols, names[i])
        rows == Rows(D, t)
    IN /\ x.index = AmplIndex(Fa, e, t)
       /\ SetOf(x.cols) = SetOf(names) /\ Len(x.cols) = Len(names)
       /\ Bag([r \in 1..Len(x.rows) |-> [i \in 1..Len(names) |-> x.rows[r][at(i)]]])
          = Bag([r \in 1..Len(rows) |-> [i \in 1..Len(fs) |-> rows[r][Idx(Fa, t, fs[i])]]])
SendRefused(Fa, e) == \/ \E i \in 1..Len(e.names) : e.names[i].t \notin AmplTables(Fa, e) \/ e.names[i].n = "#num"
                      \/ e.fail # ""
SentAs(Fa, e) == {<<t, IF \E i \in 1..Len(e.names) : e.names[i].t = t THEN e.names[CHOOSE i \in 1..Len(e.names) : e.names[i].t = t].n ELSE "">>
                  : t \in AmplTables(Fa, e)}
ToAmplClauses(F, O, e) ==
    LET Fa == FacOf(F, O, e)
        D == O[e.o].tabs
        T == AmplTables(Fa, e)
    IN IF ToAmplRefused(Fa, D, e) THEN Bad(<< <<"ampl.refuse", ~e.ret.ok>> >>)
       ELSE Bad(<< <<"ampl.raise", e.ret.ok>>,
                   <<"ampl.tables", e.ret.ok => {e.ret.tabs[i].t : i \in 1..Len(e.ret.tabs)} = T>>,
                   <<"ampl.rows", e.ret.ok => \A i \in 1..Len(e.ret.tabs) : e.ret.tabs[i].t \in T => AmplTabFits(Fa, D, e, e.ret.tabs[i].t, e.ret.tabs[i])>> >>)
            \cup (IF ~e.ret.ok \/ e.send = "no" THEN {}
                  ELSE IF e.fail \in T \/ SendRefused(Fa, [e EXCEPT !.fail = ""]) THEN Bad(<< <<"ampl.sendrefuse", ~e.ret.sok /\ e.ret.sexc = "TicDatError">> >>)
                  ELSE Bad(<< <<"ampl.send", e.ret.sok>>,
                              <<"ampl.sent", e.ret.sok => /\ {<<e.ret.sent[i].t, e.ret.sent[i].n>> : i \in 1..Len(e.ret.sent)} = SentAs(Fa, e)
                                                          /\ Len(e.ret.sent) = Cardinality(T)>> >>))

(* copy_from_ampl_variables.  e = [f, o2, vars : Seq([t, f, filt, rows])], rows = keys \o <<value>> *)
Passes(filt, v) == CASE filt = "pos" -> NumLt(Zero, v)
                     [] filt = "neg" -> NumLt(v, Zero)
                     [] filt = "all" -> TRUE
                     [] filt = "zero" -> v = Zero
                     [] filt = "none" -> FALSE
                     [] OTHER -> v # Zero
FromAmplRefused(Fa, e) == \E i \in 1..Len(e.vars) : LET x == e.vars[i] IN
                             \/ ~HasTab(Fa, x.t)
                             \/ Len(PK(Fa, x.t)) = 0
                             \/ x.f # "" /\ x.f \notin SetOf(DF(Fa, x.t))
KeyPart(Fa, t, r) == [i \in 1..Len(PK(Fa, t)) |-> Norm(r[i])]
Passing(Fa, x) == LET P == SelectSeq(x.rows, LAMBDA r : Passes(x.filt, r[Len(r)])) IN [i \in 1..Len(P) |-> [k |-> KeyPart(Fa, x.t, P[i]), v |-> P[i][Len(P[i])]]]
FromAmplTab(Fa, e, t) ==
    LET mine == {i \in 1..Len(e.vars) : e.vars[i].t = t}
        keys == UNION {{Passing(Fa, e.vars[i])[j].k : j \in 1..Len(Passing(Fa, e.vars[i]))} : i \in mine}
        val(k, f) == LET H == {x \in UNION {{<<i, j>> : j \in 1..Len(Passing(Fa, e.vars[i]))} : i \in {i \in mine : e.vars[i].f = f}} :
                               Passing(Fa, e.vars[x[1]])[x[2]].k = k}
                     IN IF H = {} THEN Def0(Fa, t, f) ELSE LET x == CHOOSE h \in H : TRUE IN Passing(Fa, e.vars[x[1]])[x[2]].v
    IN {k \o [i \in 1..Len(DF(Fa, t)) |-> val(k, DF(Fa, t)[i])] : k \in keys}
FromAmplFits(Fa, e, new) ==
    /\ new.shape = "ok"
    /\ Len(new.tabs) = Len(Fa.tables)
    /\ \A i \in 1..Len(new.tabs) : LET t == new.tabs[i].t
                                       W == IF Len(PK(Fa, t)) = 0 THEN {} ELSE FromAmplTab(Fa, e, t)
                                       r == new.tabs[i].rows
                                   IN {NormSeq(r[j]) : j \in 1..Len(r)} = {NormSeq(w) : w \in W} /\ Len(r) = Cardinality(W)

(* ampl_format.  e = [toks : Seq([k, s]), args : Seq([n, v])] *)
ArgOf(e, n) == {i \in 1..Len(e.args) : e.args[i].n = n}
FmtRefused(e) == \E i \in 1..Len(e.toks) : e.toks[i].k = "name" /\ ArgOf(e, e.toks[i].s) = {}
Text(v) == IF IsStr(v) THEN v.s ELSE ToString(v.n \div 4)
RECURSIVE FmtText(_, _)
FmtText(e, i) == IF i > Len(e.toks) THEN "" ELSE
                 (IF e.toks[i].k = "lit" THEN e.toks[i].s ELSE Text(e.args[CHOOSE j \in ArgOf(e, e.toks[i].s) : TRUE].v)) \o FmtText(e, i + 1)
FmtClauses(e) == IF FmtRefused(e) THEN Bad(<< <<"ampl.fmtrefuse", ~e.ret.ok>> >>)
                 ELSE Bad(<< <<"ampl.fmtraise", e.ret.ok>>, <<"ampl.fmt", e.ret.ok => e.ret.text = FmtText(e, 1)>> >>)

---------------------------------------------------------------------------
(* Log files.  A log is [open, path, text]; the operations are logopen, logwrite,           *)
(* logtable, logclose.  ret.text is what the file holds after it was closed.                *)
RECURSIVE Blanks(_)
Blanks(n) == IF n <= 0 THEN "" ELSE " " \o Blanks(n - 1)
Pad(s, n) == s \o Blanks(n - Len(s))
Width(n) == CASE n <= 2 -> 30 [] n = 3 -> 25 [] n = 4 -> 20 [] OTHER -> 18
RECURSIVE Joined(_, _)
Joined(ss, i) == IF i > Len(ss) THEN "" ELSE ss[i] \o Joined(ss, i + 1)
Shown(e, v) == CASE e.fmt = "angle" -> "<" \o Text(v) \o ">" [] OTHER -> Text(v)
LogLine(e, row) == Joined([j \in 1..Len(row) |-> Pad(Shown(e, row[j]), Width(Len(row)))], 1) \o "\n"
LogTableRefused(e) == e.seq = <<>> \/ \E i \in 1..Len(e.seq) : Len(e.seq[i]) # Len(e.seq[1])
LogTable(e) ==
    LET n == Len(e.seq) - 1
        top == IF n > e.max THEN e.max + 1 ELSE Len(e.seq)
    IN "Table " \o e.name \o ":\n"
       \o (IF n > e.max THEN "(Showing first " \o ToString(e.max) \o " entries out of " \o ToString(n) \o " in total)\n" ELSE "")
       \o Joined([i \in 1..top |-> LogLine(e, e.seq[i])], 1) \o "\n"
LogNext(L, e) ==   \* L : the logs before
    CASE e.op = "logopen" /\ e.ret.ok -> [id \in DOMAIN L \cup {e.id} |-> IF id = e.id THEN "" ELSE L[id]]
      [] e.op = "logwrite" /\ e.id \in DOMAIN L -> [L EXCEPT ![e.id] = @ \o e.s]
      [] e.op = "logtable" /\ e.id \in DOMAIN L /\ ~LogTableRefused(e) -> [L EXCEPT ![e.id] = @ \o LogTable(e)]
      [] OTHER -> L
LogClauses(L, e) ==
    CASE e.op = "logtable" /\ LogTableRefused(e) -> Bad(<< <<"util.log.refuse", ~e.ret.ok>> >>)
      [] e.op = "logclose" -> Bad(<< <<"util.log.raise", e.ret.ok>>,
                                     <<"util.log.text", (e.ret.ok /\ e.id \in DOMAIN L) => e.ret.text = (IF e.null THEN "no file" ELSE L[e.id])>> >>)
      [] OTHER -> Bad(<< <<"util.log.raise", e.ret.ok>> >>)

(* Progress.  e = [kind : "num" | "mip", quiet, theme : V, a : V, b : V]; ret.go, ret.out *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN ToString(n) ELSE Digits(n \div 10) \o ToString(n % 10)
Dec5(v) == LET a == IF v.n < 0 THEN -v.n ELSE v.n
               fr == CASE a % 4 = 0 -> "00000" [] a % 4 = 1 -> "25000" [] a % 4 = 2 -> "50000" [] OTHER -> "75000"
           IN (IF v.n < 0 THEN "-" ELSE "") \o Digits(a \div 4) \o "." \o fr
Above(a, b) == LET d == a.n - b.n
                   m == IF a.n < 0 THEN -a.n ELSE a.n
               IN d > 0 /\ (d > 20000 \/ d * 100000 > m)
ProgressRefused(e) == ~IsStr(e.theme) \/ e.a.k # "num" \/ (e.kind = "mip" /\ (e.b.k # "num" \/ Above(e.a, e.b)))
ProgressLine(e) == IF e.kind = "num" THEN Pad(e.theme.s, 40) \o ":" \o Dec5(e.a) \o "\n"
                   ELSE Pad(e.theme.s, 30) \o ":" \o Pad(Dec5(e.a), 20) \o ":" \o Dec5(e.b) \o "\n"
ProgressClauses(e) == IF ProgressRefused(e) THEN Bad(<< <<"util.progress.refuse", ~e.ret.ok /\ e.ret.out = "">> >>)
                      ELSE Bad(<< <<"util.progress.raise", e.ret.ok>>, <<"util.progress.go", e.ret.ok => e.ret.go>>,
                                  <<"util.progress.said", e.ret.ok => e.ret.out = (IF e.quiet THEN "" ELSE ProgressLine(e))>> >>)

(* A solver that reports its progress.  e = [via, sense : "default" | text, theme, obj : V or null, bound : V, keep,  *)
(* where : Seq(occasion)]; ret : added, calls : Seq(<<lower, upper>>), theme, stopped                                 *)
CbSense(e) == IF e.sense = "default" THEN "minimize" ELSE e.sense
CbRefused(e) == CbSense(e) \notin {"minimize", "maximize"}
CbBest(e) == IF e.obj = Null THEN (IF CbSense(e) = "minimize" THEN PInf ELSE MInf) ELSE e.obj
CbCall(e) == IF CbSense(e) = "minimize" THEN <<e.bound, CbBest(e)>> ELSE <<CbBest(e), e.bound>>
CbTimes(e) == Cardinality({i \in 1..Len(e.where) : e.where[i] = "mip"})
CallbackClauses(e) ==
    IF CbRefused(e) THEN Bad(<< <<"util.callback.refuse", ~e.ret.ok /\ e.ret.added = 0>> >>)
    ELSE Bad(<< <<"util.callback.raise", e.ret.ok>>,
                <<"util.callback.added", e.ret.ok => e.ret.added = 1>>,
                <<"util.callback.calls", e.ret.ok => e.ret.calls = [i \in 1..CbTimes(e) |-> CbCall(e)]>>,
                <<"util.callback.theme", (e.ret.ok /\ CbTimes(e) > 0) => e.ret.theme = e.theme>>,
                <<"util.callback.stop", e.ret.ok => (e.ret.stopped <=> (CbTimes(e) > 0 /\ ~e.keep))>> >>)

(* Slices of a series with a compound index.  e = [rows : Seq(index tuple \o <<value>>), pats : Seq(pattern)] *)
(* ret.res : Seq([ok, vals])                                                                *)
SlocHits(e, p) == SelectSeq(e.rows, LAMBDA r : \A j \in 1..Len(p) : p[j] = Star \/ Norm(p[j]) = Norm(r[j]))
Vals_(rows) == [i \in 1..Len(rows) |-> rows[i][Len(rows[i])]]
SlocClauses(e) ==
    LET plain == e.rows = <<>> \/ Len(e.rows[1]) = 2
    IN Bad(<< <<"util.sloc.raise", e.ret.ok>>,
              <<"util.sloc.none", e.ret.ok => (e.ret.added <=> ~plain)>>,
              <<"util.sloc.exact", (e.ret.ok /\ e.ret.added) => \A i \in 1..Len(e.pats) :
                    LET h == SlocHits(e, e.pats[i])
                        open == \E j \in 1..Len(e.pats[i]) : e.pats[i][j] = Star
                    IN IF h = <<>> /\ ~open THEN ~e.ret.res[i].ok
                       ELSE e.ret.res[i].ok /\ Bag(e.ret.res[i].vals) = Bag(Vals_(h))>> >>)

(* Row-wise application.  e = [cols, idx : Seq(V), rows, fn, trip : V or null, fn2]: fn is applied to rows until a    *)
(* result is the tripping one; fn2 is applied to the rest.  ret : idx, vals, seen                                    *)
FnVal(e, fn, r) == CASE fn = "sum" -> Num(r[1].n + r[2].n) [] fn = "first" -> r[1] [] fn = "second" -> r[2] [] OTHER -> IntV(7)
TripAt(e) == LET H == {i \in 1..Len(e.rows) : FnVal(e, e.fn, e.rows[i]) = e.trip} IN IF H = {} THEN Len(e.rows) + 1 ELSE CHOOSE i \in H : \A j \in H : i <= j
ApplyClauses(e) ==
    LET want == [i \in 1..Len(e.rows) |-> FnVal(e, IF i <= TripAt(e) THEN e.fn ELSE e.fn2, e.rows[i])]
    IN Bad(<< <<"util.apply.raise", e.ret.ok>>,
              <<"util.apply.index", e.ret.ok => e.ret.idx = e.idx>>,
              <<"util.apply.vals", e.ret.ok => e.ret.vals = want>>,
              <<"util.apply.asked", e.ret.ok => e.ret.asked = (IF e.trip = Null THEN 0 ELSE IF TripAt(e) > Len(e.rows) THEN Len(e.rows) ELSE TripAt(e))>> >>)

(* Schemas of Access files.  e = [f, s, forced : Seq(<<table, field, type>>)]; ret.made : Seq([name, cols : Seq(<<field, type>>), pk]) *)
MdbForced(e, t, f) == {e.forced[i][3] : i \in {i \in 1..Len(e.forced) : e.forced[i][1] = t /\ e.forced[i][2] = f}}
MdbSchemaRefused(Fa, e, old) ==
    \/ ~old.exists
    \/ \E t \in TabNames(Fa) : Tab(Fa, t).kind = "generic"
    \/ \E i \in 1..Len(e.forced) : LET x == e.forced[i] IN
          \/ x[1] \notin TabNames(Fa) \/ x[3] \notin {"text", "double", "int"}
          \/ x[1] \in TabNames(Fa) /\ x[2] \notin SetOf(Fields(Fa, x[1]))
MdbType(Fa, e, t, f) ==
    CASE MdbForced(e, t, f) # {} -> CHOOSE x \in MdbForced(e, t, f) : TRUE
      [] Params(Fa, t) \/ f \in SetOf(PK(Fa, t)) -> "text"
      [] OTHER -> "double"
MdbTaken(Fa, old, lx) == \E t \in TabNames(Fa) : \E i \in 1..Len(old.tabs) : lx[old.tabs[i].name].low = lx[t].low
MdbSchemaClauses(Fa, e, old, new) ==
    LET T == TabNames(Fa)
        at(t) == {i \in 1..Len(e.ret.made) : e.ret.made[i].name = t}
        kept == \A i \in 1..Len(old.tabs) : \E j \in 1..Len(new.tabs) : new.tabs[j] = old.tabs[i]
    IN IF MdbSchemaRefused(Fa, e, old) THEN Bad(<< <<"mdb.schema.refuse", ~e.ret.ok>>, <<"mdb.schema.same", new.exists = old.exists /\ new.fp = old.fp>> >>)
       ELSE IF MdbTaken(Fa, old, e.lex) THEN Bad(<< <<"mdb.schema.taken", ~e.ret.ok>>, <<"mdb.schema.kept", kept>> >>)
       ELSE Bad(<< <<"mdb.schema.raise", e.ret.ok>>, <<"mdb.schema.kept", kept>>,
                   <<"mdb.schema.tables", e.ret.ok => /\ Len(new.tabs) = Len(old.tabs) + Cardinality(T) /\ Len(e.ret.made) = Len(new.tabs)
                                                      /\ \A t \in T : Cardinality(at(t)) = 1>>,
                   <<"mdb.schema.cols", e.ret.ok => \A t \in T : \A i \in at(t) :
                        LET x == e.ret.made[i]
                        IN SetOf(x.cols) = {<<f, MdbType(Fa, e, t, f)>> : f \in SetOf(Fields(Fa, t))} /\ Len(x.cols) = Len(Fields(Fa, t))>>,
                   <<"mdb.schema.keys", e.ret.ok => \A t \in T : \A i \in at(t) : e.ret.made[i].pk = PK(Fa, t)>>,
                   <<"mdb.schema.empty", e.ret.ok => \A t \in T : \A i \in 1..Len(new.tabs) : new.tabs[i].name = t => new.tabs[i].rows = <<>> >> >>)
=============================================================================
