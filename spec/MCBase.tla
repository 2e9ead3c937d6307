------------------------------- MODULE MCBase -------------------------------
(* Common ground of the design models (MC*.tla): records of operations as the harness     *)
(* executes them, and the selection of behaviours that are replayed into the real code.    *)
EXTENDS OpsPg, Json, IOUtils

KEEP == atoi(IOEnv.VP_KEEP)     \* one behaviour out of so many is replayed
SEED == atoi(IOEnv.VP_SEED)

\* a number for every value, to select behaviours evenly
Code(v) == CASE v.k = "num" -> 7 + v.n [] v.k = "null" -> 1 [] v.k = "inf" -> 3 + v.n [] v.k = "bool" -> 5 + v.n
             [] v.k = "str" -> 11 + 3 * Len(v.s) [] OTHER -> 17
RECURSIVE Mix(_, _, _)
Mix(s, i, h) == IF i > Len(s) THEN h ELSE Mix(s, i + 1, (h * 131 + s[i] + 1) % 1000003)
HashRow(r) == Mix([j \in 1..Len(r) |-> Code(r[j])], 1, 3)
HashRows(s) == Mix([i \in 1..Len(s) |-> HashRow(s[i])], 1, 5)
HashTabs(D) == Mix([i \in 1..Len(D) |-> HashRows(D[i].rows)], 1, 7)
\* spread evenly, whatever the pattern of the hashes
Chosen(h) == LET a == h % 30011 b == a * 69997 c == b % 1000003 IN (c + SEED) % KEEP = 0
Emit(ops) == PrintT("VPS " \o ToJson(ops))

\* sequences of the elements of a set of indices, in order
Subs(s) == {Pick(s, S) : S \in SUBSET (1..Len(s))}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
\* all tables with distinct keys drawn from ks (a sequence) and the rest of each row from rest (a set of sequences)
RECURSIVE Keyed(_, _)
Keyed(ks, rest) == IF ks = <<>> THEN {<<>>}
                   ELSE LET more == Keyed(Tail(ks), rest)
                        IN more \cup {<<ks[1] \o r>> \o m : r \in rest, m \in more}
Std(t, pk, df) == [t |-> t, pk |-> pk, df |-> df, kind |-> "std"]
FK(nt, ft, m) == [nt |-> nt, ft |-> ft, m |-> m]
Desc(tables, fks) == [tables |-> tables, fks |-> fks, dt |-> <<>>, dv |-> <<>>, preds |-> <<>>, params |-> <<>>, tips |-> <<>>]
OMkfac(f, fl, d) == [op |-> "mkfac", f |-> f, fl |-> fl, desc |-> d]
Data(t, rows) == [t |-> t, rows |-> rows, cols |-> <<>>]
OMk(f, o, tabs) == [op |-> "mk", f |-> f, o |-> o, tabs |-> tabs, obj |-> FALSE, labels |-> "", extra |-> FALSE]
OFindFK(o, max) == [op |-> "findfk", o |-> o, verb |-> "Low", max |-> max, table |-> TRUE]
ORemoveFK(o, prop) == [op |-> "removefk", o |-> o, prop |-> prop]
OFindDT(o, max) == [op |-> "finddt", o |-> o, max |-> max, table |-> TRUE]
OFindRow(o, exc, max) == [op |-> "findrow", o |-> o, exc |-> exc, max |-> max, table |-> TRUE]
OReplace(o, repl) == [op |-> "replacedt", o |-> o, repl |-> repl, pass |-> TRUE]
OClone(f, f2, fl2) == [op |-> "clone", f |-> f, f2 |-> f2, fl2 |-> fl2, restrict |-> <<>>, via |-> "class", conv |-> TRUE, say |-> FALSE]
ODecl(f, d) == [op |-> "decl", f |-> f, d |-> d]
Nulls(D) == \E i \in 1..Len(D) : \E r \in Range(D[i].rows) : \E j \in 1..Len(r) : IsNull(r[j])
\* files
CDate == V("date", 0, "2020-01-02T00:00:00")
\* texts: [the text, number, date, truth value, pandas NA, lower case]
CTexts == << <<"", NoV, "", "", TRUE, "">>, <<"a", NoV, "", "", FALSE, "a">>, <<"12", IntV(12), "2026-11-12T00:00:00", "", FALSE, "12">>,
             <<"12.0", IntV(12), "2026-11-12T00:00:00", "", FALSE, "12.0">>, <<"inf", PInf, "", "", FALSE, "inf">>, <<"-inf", MInf, "", "", FALSE, "-inf">>,
             <<"True", NoV, "", "T", FALSE, "true">>, <<"2020-01-02", NoV, "2020-01-02T00:00:00", "", FALSE, "2020-01-02">>,
             <<"None", NoV, "", "", FALSE, "none">>, <<"0", IntV(0), "", "", FALSE, "0">>, <<"-3", IntV(-3), "", "", FALSE, "-3">>, <<"7.5", Num(30), "", "", FALSE, "7.5">>,
             <<"20000", IntV(20000), "", "", FALSE, "20000">>, <<"10000", IntV(10000), "", "", FALSE, "10000">>, <<"-10000", IntV(-10000), "", "", FALSE, "-10000">> >>
LX == [n \in {CTexts[i][1] : i \in 1..Len(CTexts)} |->
         LET x == CHOOSE x \in Range(CTexts) : x[1] = n
         IN [num |-> x[2], date |-> x[3], bl |-> x[4], na |-> x[5], low |-> x[6], norm |-> x[6], sqln |-> IF x[2].k = "num" THEN x[2] ELSE NoV,
             cr |-> FALSE, cq |-> FALSE]]
OWrite(o, s, w) == [op |-> "write", o |-> o, s |-> s, fmt |-> w[1], pretty |-> FALSE, ov |-> FALSE, form |-> IF w[1] = "json" THEN w[2] ELSE "lists",
                    exists |-> "replace", hdr |-> TRUE, schema |-> w[3], dialect |-> ""]
ORead(s, o) == [op |-> "read", f |-> "F", s |-> s, o2 |-> o, fill |-> FALSE, tinf |-> TRUE, freeze |-> FALSE]
=============================================================================
