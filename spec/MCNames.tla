------------------------------- MODULE MCNames -------------------------------
(* Matching the tables and columns of a file with those of the schema: every set of up to    *)
(* three spellings of table names, with columns missing, added, respelled, doubled and in     *)
(* any order.  A file is read exactly if nothing is ambiguous or missing, and then its         *)
(* contents are those of the same file put straight.                                           *)
EXTENDS MCBase
CONSTANT Fl
VARIABLES fmt, fill, tabs, step, before
vars == <<fmt, fill, tabs, step, before>>

\* names: [as written, lower case, blanks as underscores too]
CNames == << <<"a_b", "a_b", "a_b">>, <<"A b", "a b", "a_b">>, <<"a b", "a b", "a_b">>, <<"A_B", "a_b", "a_b">>, <<"cd", "cd", "cd">>, <<"CD", "cd", "cd">>,
            <<"c d", "c d", "c_d">>, <<"zz", "zz", "zz">>, <<"k", "k", "k">>, <<"K", "k", "k">>, <<"Val", "val", "val">>, <<"VAL", "val", "val">>, <<"val", "val", "val">>,
            <<"x", "x", "x">>, <<"X", "x", "x">>, <<"y z", "y z", "y_z">>, <<"Y z", "y z", "y_z">>, <<"y_z", "y_z", "y_z">>, <<"u", "u", "u">>, <<"other", "other", "other">> >>
CDigits == <<"1", "2", "3", "4", "5", "6", "7", "8", "9">>
NX(num, low, norm) == [num |-> num, date |-> "", bl |-> "", na |-> FALSE, low |-> low, norm |-> norm, sqln |-> num, cr |-> FALSE, cq |-> FALSE,
                       cut |-> low, lowcut |-> low, normcut |-> norm, pretty |-> low]
LN == [n \in {CNames[i][1] : i \in 1..Len(CNames)} \cup Range(CDigits) |->
         IF \E i \in 1..Len(CDigits) : CDigits[i] = n THEN LET i == CHOOSE i \in 1..Len(CDigits) : CDigits[i] = n IN NX(IntV(i), n, n)
         ELSE LET x == CHOOSE x \in Range(CNames) : x[1] = n IN NX(NoV, x[2], x[3])]
NTables == <<Std("a_b", <<"k">>, <<"Val">>), Std("cd", <<>>, <<"x", "y z">>)>>
NFac == IF Fl = "tic" THEN NewFac(NTables) ELSE [NewFac(NTables) EXCEPT !.trail = "prune"]
Fmts == IF Fl = "tic" THEN {"csv", "sqlite", "xlsx", "json"} ELSE {"csv", "sqlite", "xlsx"}
Form(f) == IF f = "json" THEN "dicts" ELSE "cols"
PlainF(f) == f = "json"
ColsOf(f, n) == IF LN[n].norm = "a_b" THEN {<<"k", "Val">>, <<"Val", "k">>} \cup
                       (IF PlainF(f) THEN {} ELSE {<<"K", "val">>, <<"other", "k", "Val">>, <<"k">>}) \cup
                       (IF f \in {"csv", "xlsx"} THEN {<<"VAL", "k", "Val">>} ELSE {})
                ELSE IF LN[n].norm = "cd" THEN {<<"x", "y z">>} \cup (IF PlainF(f) THEN {} ELSE {<<"Y z", "X">>, <<"x", "y_z">>})
                ELSE IF PlainF(f) /\ n = "zz" THEN {<<"u">>} ELSE {<<"u", "other">>}
CNum(f, i) == IF f = "csv" THEN Str(CDigits[i]) ELSE IntV(i)
Val2(f, c, i) == LET l == LN[c].low IN CNum(f, CASE l = "k" -> i [] l = "val" -> 4 + i [] l = "x" -> 2 + i [] l \in {"y z", "y_z"} -> 6 + i [] OTHER -> 9)
Tab0(f, n, cols) == [name |-> n, form |-> Form(f), cols |-> cols, aff |-> <<>>, rows |-> [i \in 1..2 |-> [j \in 1..Len(cols) |-> Val2(f, cols[j], i)]]]
Named == {"a_b", "A b", "a b", "cd", "CD", "c d", "zz"}
Sets(f) == {S \in SUBSET Named : Cardinality(S) <= 3 /\ (f = "json" => "zz" \notin S /\ "c d" \notin S)
                                 /\ (f \in {"sqlite", "xlsx"} => \A m, n \in S : LN[m].low = LN[n].low => m = n)
                                 /\ (f = "xlsx" => S # {})}
Least(S) == CHOOSE n \in S : \A m \in S : PosIn(<<"A b", "CD", "a b", "a_b", "c d", "cd", "zz">>, n) <= PosIn(<<"A b", "CD", "a b", "a_b", "c d", "cd", "zz">>, m)
RECURSIVE Fill(_, _)
Fill(f, S) == IF S = {} THEN {<<>>}
              ELSE LET n == Least(S) IN LET rest == Fill(f, S \ {n}) IN {<<Tab0(f, n, c)>> \o q : c \in ColsOf(f, n), q \in rest}
Files == TLCEval([f \in Fmts |-> UNION {Fill(f, S) : S \in Sets(f)}])
\* file names of csv directories that differ only in case, and the like, are kept apart
File(f, ts) == [fmt |-> f, exists |-> TRUE, hdr |-> TRUE, schema |-> FALSE, tabs |-> ts]
ReadIt(f, ts, fi) == ReadStore(NFac, Fl, [fill |-> fi, tinf |-> TRUE], File(f, ts), LN)
OPut(s, f, ts) == [op |-> "put", s |-> s, fmt |-> f, tabs |-> ts, hdr |-> TRUE, schema |-> FALSE, dialect |-> "", offs |-> <<>>, bare |-> FALSE]
ORd(s, o, fi) == [op |-> "read", f |-> "F", s |-> s, o2 |-> o, fill |-> fi, tinf |-> TRUE, freeze |-> FALSE]
Straight(f, ts) == LET at(t) == {i \in 1..Len(ts) : LN[ts[i].name].norm = t}
                       one(t) == IF at(t) = {} THEN <<>> ELSE <<Tab0(f, t, SelectSeq(Fields(NFac, t), LAMBDA c : \E j \in 1..Len(ts[CHOOSE i \in at(t) : TRUE].cols) :
                                                                                     LN[ts[CHOOSE i \in at(t) : TRUE].cols[j]].low = LN[c].low))>>
                   IN one("a_b") \o one("cd")
NHash(f, ts, fi) == Mix(<<Len(f), IF fi THEN 1 ELSE 2>> \o [i \in 1..Len(ts) |-> Mix(<<PosIn(<<"A b", "CD", "a b", "a_b", "c d", "cd", "zz">>, ts[i].name), Len(ts[i].cols), HashRows(ts[i].rows)>>, 1, 1)], 1, 1)
Init == /\ fmt \in Fmts
        /\ fill \in (IF Fl = "pan" THEN BOOLEAN ELSE {FALSE})
        /\ tabs \in Files[fmt]
        /\ step = 0
        /\ before = ReadIt(fmt, tabs, fill)
        /\ Chosen(NHash(fmt, tabs, fill)) => Emit(<<OMkfac("F", Fl, Desc(NTables, <<>>)), OPut("s0", fmt, tabs), ORd("s0", "A", fill)>>
                                                    \o (IF Straight(fmt, tabs) = <<>> THEN <<>>
                                                        ELSE <<[OPut("s1", fmt, Straight(fmt, tabs)) EXCEPT !.bare = TRUE], ORd("s1", "B", fill)>>))
Tidy == /\ step = 0
        /\ step' = 1
        /\ tabs' = Straight(fmt, tabs)
        /\ UNCHANGED <<fmt, fill, before>>
Spec == Init /\ [][Tidy]_vars

Meant(c) == IF Fl = "pan" \/ fmt = "json" THEN c ELSE LN[c].low
Exact == step = 0 => (before.ok <=> \A t \in {"a_b", "cd"} :
            LET at == {i \in 1..Len(tabs) : LN[tabs[i].name].norm = t}
            IN /\ Cardinality(at) <= 1
               /\ \A i \in at : \A f \in Range(Fields(NFac, t)) :
                    LET n == Cardinality({j \in 1..Len(tabs[i].cols) : Meant(tabs[i].cols[j]) = Meant(f)})
                    IN n = 1 \/ (n = 0 /\ Fl = "pan" /\ fill /\ f \in {"Val", "x", "y z"}))
Same == (step = 1 /\ before.ok /\ Fl = "tic") => LET now == ReadIt(fmt, tabs, fill) IN now.ok /\ now.tabs = before.tabs
Whole == (step = 0 /\ before.ok /\ Fl = "tic") => \A n \in 1..2 :
            \/ before.tabs[n].rows = <<>> /\ ~\E i \in 1..Len(tabs) : LN[tabs[i].name].norm = before.tabs[n].t
            \/ before.tabs[n].rows = (IF n = 1 THEN <<<<CNum(fmt, 1), IntV(5)>>, <<CNum(fmt, 2), IntV(6)>>>> ELSE <<<<IntV(3), IntV(7)>>, <<IntV(4), IntV(8)>>>>)
Inv == Exact /\ Same /\ Whole
=============================================================================
