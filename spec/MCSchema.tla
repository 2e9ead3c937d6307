------------------------------ MODULE MCSchema ------------------------------
(* Schema edits in every order: tables and columns added, removed and renamed, tables       *)
(* dropped, schemas exported and imported again.  Every declaration keeps speaking of        *)
(* columns that exist, edits can be undone, renaming changes no verdict, and editing and     *)
(* restricting commute.                                                                      *)
EXTENDS MCBase
CONSTANT Fl, Depth
VARIABLES F, prev, hist, pc
vars == <<F, prev, hist, pc>>

Ty(n, s, z) == [num |-> n, imin |-> TRUE, imax |-> TRUE, min |-> IntV(1), max |-> PInf, int |-> FALSE, any |-> s, strs |-> <<>>, null |-> z, dt |-> FALSE]
Tables == <<Std("t1", <<"a", "b">>, <<"c">>), Std("t2", <<"k">>, <<"a">>), Std("t3", <<>>, <<"x", "y">>)>>
DTs == <<[t |-> "t1", f |-> "c", ty |-> Ty(TRUE, FALSE, FALSE)], [t |-> "t2", f |-> "k", ty |-> Ty(TRUE, TRUE, FALSE)],
         [t |-> "t3", f |-> "y", ty |-> Ty(FALSE, TRUE, TRUE)]>>
FKs == <<FK("t1", "t2", <<<<"a", "k">>>>), FK("t3", "t1", <<<<"x", "a">>, <<"y", "b">>>>), FK("t2", "t2", <<<<"a", "k">>>>)>>
DVs == <<[t |-> "t1", f |-> "c", v |-> IntV(4)], [t |-> "t3", f |-> "x", v |-> Str("z")]>>
Tips == <<[t |-> "t1", f |-> "c", s |-> "tip"], [t |-> "t2", f |-> "", s |-> "table"], [t |-> "t3", f |-> "x", s |-> "x tip"]>>
Desc0 == [Desc(Tables, FKs) EXCEPT !.dt = DTs, !.dv = DVs, !.tips = Tips]
Base == FromDesc(Desc0, Fl)

Ce(k, t, fld, new, kind, pos) == [op |-> "cloneedit", f |-> "", f2 |-> "", k |-> k, t |-> t, fld |-> fld, new |-> new, pk |-> <<>>, df |-> <<>>,
                                  kind |-> kind, pos |-> pos, bad |-> "", clash |-> FALSE]
Adds == {[Ce("addtable", "w", "", "", "", -1) EXCEPT !.pk = <<"k">>, !.df = <<"n", "m">>], [Ce("addtable", "zz", "", "", "", -1) EXCEPT !.df = <<"a">>],
         [Ce("addtable", "t2", "", "", "", -1) EXCEPT !.pk = <<"k">>]}
Edits == Adds \cup
    {Ce("addcol", t, n, "", kind, pos) : t \in {"t1", "t3"}, n \in {"new", "c"}, kind \in {"primary key", "data"}, pos \in {-1, 0, 1}} \cup
    {Ce("rmcol", x[1], x[2], "", "", -1) : x \in {<<"t1", "a">>, <<"t1", "c">>, <<"t1", "new">>, <<"t2", "k">>, <<"t2", "a">>, <<"t3", "x">>, <<"t3", "nope">>}} \cup
    {Ce("rename", x[1], x[2], x[3], "", -1) : x \in {<<"t1", "a", "z">>, <<"t1", "b", "a">>, <<"t1", "c", "C2">>, <<"t2", "k", "a">>, <<"t2", "k", "id">>,
                                                     <<"t2", "a", "k">>, <<"t3", "x", "a">>, <<"t3", "y", "x">>, <<"t1", "z", "a">>, <<"t2", "id", "k">>}}
Name(i) == "G" \o ToString(i)
Cur == IF pc = 0 THEN "F" ELSE Name(pc)
Then(e) == hist' = Append(hist, e)
\* a refused edit leaves the factory behind; what follows goes on from a plain clone
Step(e, r) == /\ prev' = F
              /\ F' = r.fac
              /\ hist' = hist \o <<[e EXCEPT !.f = Cur, !.f2 = IF r.ok THEN Name(pc + 1) ELSE "X" \o Name(pc + 1)]>>
                              \o IF r.ok THEN <<>> ELSE <<OClone(Cur, Name(pc + 1), Fl)>>
Edit == \E e \in Edits : (HasTab(F, e.t) \/ e.k = "addtable") /\ Step(e, EditFac(F, e))
Restrict == \E T \in {{"t1", "t2"}, {"t1", "t3"}, {"t2"}} :
              /\ \A t \in T : HasTab(F, t)
              /\ LET c == [OClone(Cur, Name(pc + 1), Fl) EXCEPT !.restrict = SeqOf(T), !.conv = FALSE] IN
                    /\ F' = CloneFac(F, Fl, c) /\ prev' = F /\ Then(c)
Export == LET c == [op |-> "import", f |-> Cur, f2 |-> Name(pc + 1), fl2 |-> Fl, json |-> pc % 2 = 0, cut |-> <<>>, junk |-> FALSE] IN
              /\ F' = ImportFac(F, c) /\ prev' = F /\ Then(c)

\* data that fit any of the schemas: positional, so that renaming leaves them as they are
Cell(tb, i, j) == IF j <= Len(tb.pk) THEN IntV(i) ELSE IntV((i + j) % 3)
DataOf(X) == [n \in 1..Len(X.tables) |-> LET tb == X.tables[n]
                                         IN Data(tb.t, [i \in 1..2 |-> [j \in 1..(Len(tb.pk) + Len(tb.df)) |-> Cell(tb, i, j)]])]
Finish(h, X) == LET g == Name(Depth) IN
    h \o <<[op |-> "fklist", f |-> g], [op |-> "schema", f |-> g], OMk(g, "A", DataOf(X)), OFindFK("A", 0), OFindDT("A", 0),
           OMk("F", "B", DataOf(Base)), OFindFK("B", 0)>>
ECode(e) == IF e.op = "cloneedit" THEN Mix(<<Len(e.k), Len(e.t) + (IF e.t = "t1" THEN 5 ELSE IF e.t = "t2" THEN 9 ELSE 2),
                                             Len(e.fld) + (IF e.fld = "a" THEN 7 ELSE IF e.fld \in {"k", "x"} THEN 11 ELSE 1), Len(e.new) + (IF e.new = "a" THEN 3 ELSE 1),
                                             e.pos + 2, Len(e.kind)>>, 1, 1)
            ELSE IF e.op = "clone" THEN 70 + Len(e.restrict) + (IF InSeq(e.restrict, "t3") THEN 5 ELSE 1) ELSE 40
SHash(h) == Mix([i \in 1..(Len(h) - 1) |-> ECode(h[i + 1])], 1, 1)
Init == /\ F = Base /\ prev = Base /\ pc = 0
        /\ hist = <<OMkfac("F", Fl, Desc0)>>
Next == /\ pc < Depth
        /\ pc' = pc + 1
        /\ Edit \/ Restrict \/ Export
        /\ pc' = Depth => (Chosen(SHash(hist')) => Emit(Finish(hist', F')))
Spec == Init /\ [][Next]_vars

Same(A, B) == FacDiff(A, B) = {}
Spoken == /\ \A i \in 1..Len(F.tables) : Distinct(Fields(F, F.tables[i].t)) /\ Len(Fields(F, F.tables[i].t)) > 0
          /\ \A q \in Range(F.dt) \cup Range(F.dv) : OwnField(F, q.t, q.f)
          /\ \A q \in Range(F.tips) : HasTab(F, q.t) /\ (q.f = "" \/ OwnField(F, q.t, q.f))
          /\ \A k \in Range(F.fks) : \A p \in Range(k.m) : OwnField(F, k.nt, p[1]) /\ OwnField(F, k.ft, p[2])
          /\ \A i, j \in 1..Len(F.dv) : (F.dv[i].t = F.dv[j].t /\ F.dv[i].f = F.dv[j].f) => i = j
\* what an edit did can be undone
Undo == \A t \in {F.tables[i].t : i \in 1..Len(F.tables)} :
          /\ \A f \in Range(Fields(F, t)) : LET r == Ce("rename", t, f, "tmp", "", -1) b == Ce("rename", t, "tmp", f, "", -1)
                                            IN Same(EditFac(EditFac(F, r).fac, b).fac, F)
          /\ \A k \in {"primary key", "data"} : LET a == Ce("addcol", t, "tmp", "", k, 0) b == Ce("rmcol", t, "tmp", "", "", -1)
                                                IN EditFac(F, a).ok => Same(EditFac(EditFac(F, a).fac, b).fac, F)
\* renaming changes no verdict
Verdicts == \A t \in {F.tables[i].t : i \in 1..Len(F.tables)} : \A f \in Range(Fields(F, t)) :
              LET X == EditFac(F, Ce("rename", t, f, "tmp", "", -1)).fac D == DataOf(F)
              IN /\ Cardinality(FailingFKs(F, D)) = Cardinality(FailingFKs(X, D))
                 /\ DTFailIdx(F, D, t, f) = DTFailIdx(X, D, t, "tmp")
\* editing a table that is kept and restricting can be swapped
Swap == \A t \in {F.tables[i].t : i \in 1..Len(F.tables)} :
          LET T == {t} e == Ce("rename", t, Fields(F, t)[1], "tmp", "", -1)
          IN Same(RestrictFac(EditFac(F, e).fac, T), EditFac(RestrictFac(F, T), e).fac)
Inv == Spoken /\ Undo /\ Verdicts /\ Swap
=============================================================================
