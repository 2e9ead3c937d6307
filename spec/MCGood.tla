-------------------------------- MODULE MCGood --------------------------------
(* Object checks over the grid of ways to hand over one table: every pair of entries, each    *)
(* with a key of any width and a row of any make.  Strict acceptance implies generous, what    *)
(* is accepted can be built and holds the values given, and acceptance goes entry by entry.   *)
EXTENDS MCBase
CONSTANT NPk, NDf
VARIABLES x, fl, step
vars == <<x, fl, step>>

GPk == SubSeq(<<"k", "m">>, 1, NPk)
GDf == SubSeq(<<"x", "y">>, 1, NDf)
GFac == [NewFac(<<Std("t", GPk, GDf), Std("o", <<"n">>, <<>>)>>) EXCEPT !.dv = IF NDf > 0 THEN <<[t |-> "t", f |-> "x", v |-> IntV(9)]>> ELSE <<>>]
GDesc == [Desc(<<Std("t", GPk, GDf), Std("o", <<"n">>, <<>>)>>, <<>>) EXCEPT !.dv = IF NDf > 0 THEN <<[t |-> "t", f |-> "x", v |-> IntV(9)]>> ELSE <<>>]
Cell(f, n) == [f |-> f, v |-> IntV(n)]
RD(c) == [kind |-> "dict", cells |-> c, vals |-> <<>>, tup |-> FALSE]
RL(v, tup) == [kind |-> "list", cells |-> <<>>, vals |-> v, tup |-> tup]
RS(v) == [kind |-> "scalar", cells |-> <<>>, vals |-> <<v>>, tup |-> FALSE]
\* rows of every make: dictionaries of known and unknown fields in any order, lists of any length, bare values
Makes == {RD(Pick(<<Cell("x", 1), Cell("y", 2), Cell("other", 3)>>, S)) : S \in SUBSET (1..3)} \cup {RD(<<Cell("y", 2), Cell("x", 1)>>), RD(<<Cell("k", 2)>>), RD(<<Cell("m", 2), Cell("k", 3)>>)}
         \cup {RL([i \in 1..n |-> IntV(i)], n # 2) : n \in 0..4} \cup {RS(IntV(4)), RS(Str("a"))}
\* keys: bare, and tuples of two or three
KeysAt(i) == {[k |-> <<IntV(i)>>, kt |-> FALSE], [k |-> <<IntV(i), IntV(1)>>, kt |-> TRUE], [k |-> <<IntV(i), IntV(1), IntV(1)>>, kt |-> TRUE]}
Entry(i, form) == IF form = "dict" THEN {[k |-> q.k, kt |-> q.kt, r |-> m] : q \in KeysAt(i), m \in Makes} ELSE {[k |-> <<>>, kt |-> FALSE, r |-> m] : m \in Makes}
In(form, ent) == [t |-> "t", form |-> form, ent |-> ent, cols |-> <<>>, rows |-> <<>>, idx |-> <<>>]
Other == [t |-> "o", form |-> "dict", ent |-> <<[k |-> <<IntV(5)>>, kt |-> FALSE, r |-> RD(<<>>)]>>, cols |-> <<>>, rows |-> <<>>, idx |-> <<>>]
Inputs == UNION {{In(f, <<>>)} \cup {In(f, <<a>>) : a \in Entry(1, f)} \cup {In(f, <<a, b>>) : a \in Entry(1, f), b \in Entry(2, f)} : f \in (IF NPk = 0 THEN {"list"} ELSE {"dict", "list"})}
OGood(ins, mode, o) == [op |-> "good", f |-> "F", ins |-> ins, mode |-> mode, o2 |-> o]
OBuild(ins, o) == [op |-> "build", f |-> "F", o |-> o, ins |-> ins, src |-> "", links |-> FALSE]
Judge(i, mode) == GoodObj(GFac, "tic", [ins |-> <<i, Other>>, mode |-> mode])
RCode(r) == Mix(<<Len(r.kind), Len(r.cells), Len(r.vals), IF r.tup THEN 1 ELSE 0>> \o [i \in 1..Len(r.cells) |-> Len(r.cells[i].f) + (IF r.cells[i].f = "x" THEN 7 ELSE 0)], 1, 1)
GHash(i) == Mix([j \in 1..Len(i.ent) |-> Mix(<<RCode(i.ent[j].r), Len(i.ent[j].k), IF i.ent[j].kt THEN 1 ELSE 0>>, 1, 1)], 1, Len(i.form))
Init == /\ x \in Inputs
        /\ fl = "tic"
        /\ step = 0
        \* what is accepted is rare: always replayed
        /\ (Chosen(GHash(x)) \/ Judge(x, "generous"))
             => Emit(<<OMkfac("F", "tic", GDesc), OGood(<<x, Other>>, "strict", "C1"), OGood(<<Other, x>>, "default", "C2"), OGood(<<x, Other>>, "generous", "C3"),
                       OBuild(<<x, Other>>, "B")>>)
\* one entry less
Less == /\ step = 0
        /\ x.ent # <<>>
        /\ step' = 1
        /\ \E i \in 1..Len(x.ent) : x' = [x EXCEPT !.ent = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
        /\ UNCHANGED fl
Spec == Init /\ [][Less]_vars
Lenient == Judge(x, "strict") => Judge(x, "generous")
\* a flaw sits in an entry, and every entry can have one
ByEntry == \A mode \in {"strict", "generous"} : Judge(x, mode) <=> (Judge([x EXCEPT !.ent = <<>>], mode) /\ \A i \in 1..Len(x.ent) : Judge([x EXCEPT !.ent = <<x.ent[i]>>], mode))
Given(r, f) == IF r.kind = "dict" THEN (IF CellOf(r, f) # {} THEN r.cells[CHOOSE i \in CellOf(r, f) : TRUE].v ELSE Def0(GFac, "t", f)) ELSE r.vals[PosIn(GDf, f)]
Accepted == Judge(x, "generous") => LET b == BuildTic(GFac, x)
           IN /\ b.ok
              /\ Len(b.rows) <= Len(x.ent)
              /\ x.form = "dict" => /\ Len(b.rows) = Len(x.ent)
                                    /\ \A i \in 1..Len(x.ent) : b.rows[i] = x.ent[i].k \o [j \in 1..NDf |-> Given(x.ent[i].r, GDf[j])]
Inv == Lenient /\ ByEntry /\ Accepted
=============================================================================
