------------------------------- MODULE MCLinks -------------------------------
(* Foreign key links over every small data set of a schema: every child row that has a      *)
(* parent is linked from exactly one row of it, the rows linked from nowhere are exactly     *)
(* the failures of the key, and once failures are removed the links are unchanged.           *)
EXTENDS MCBase
CONSTANT Shape
VARIABLES D, step, first
vars == <<D, step, first>>

LTables == CASE Shape = 1 -> <<Std("c", <<"k", "m">>, <<"x">>), Std("p", <<"k">>, <<"v">>)>>
             [] Shape = 2 -> <<Std("c", <<"b", "a">>, <<"x">>), Std("p", <<"a", "b">>, <<>>)>>
             [] Shape = 3 -> <<Std("c", <<"i", "j">>, <<>>), Std("p", <<"k">>, <<"d">>)>>
             [] OTHER -> <<Std("g", <<"n">>, <<"k", "m">>), Std("h", <<"k", "m">>, <<>>), Std("p", <<"k">>, <<>>)>>
LKeys == CASE Shape = 1 -> <<FK("c", "p", <<<<"k", "k">>>>)>>
           [] Shape = 2 -> <<FK("c", "p", <<<<"a", "a">>, <<"b", "b">>>>)>>
           [] Shape = 3 -> <<FK("c", "p", <<<<"i", "k">>>>), FK("c", "p", <<<<"j", "k">>>>), FK("p", "p", <<<<"d", "k">>>>)>>
           [] OTHER -> <<FK("g", "h", <<<<"m", "m">>, <<"k", "k">>>>), FK("h", "p", <<<<"k", "k">>>>)>>
N12 == {IntV(1), IntV(2)}
Three == {IntV(1), IntV(2), Str("a")}
OnKeys(K, rest) == UNION {Keyed(SeqOf(S), rest) : S \in {X \in SUBSET K : Cardinality(X) <= 3}}
PairsOf(A, B) == {<<x, y>> : x \in A, y \in B}
LData == CASE Shape = 1 -> {<<Data("c", c), Data("p", p)>> : c \in OnKeys(PairsOf(Three, N12), {<<IntV(7)>>}), p \in OnKeys({<<v>> : v \in Three}, {<<IntV(5)>>})}
           [] Shape = 2 -> {<<Data("c", c), Data("p", p)>> : c \in OnKeys(PairsOf(N12, Three), {<<IntV(7)>>}), p \in OnKeys(PairsOf(Three, N12), {<<>>})}
           [] Shape = 3 -> {<<Data("c", c), Data("p", p)>> : c \in OnKeys(PairsOf(N12, Three), {<<>>}), p \in OnKeys({<<v>> : v \in Three}, {<<IntV(1)>>, <<Null>>})}
           [] OTHER -> {<<Data("g", g), Data("h", h), Data("p", p)>> :
                          g \in OnKeys({<<IntV(1)>>, <<Str("a")>>}, PairsOf(N12, N12)), h \in OnKeys(PairsOf(N12, N12), {<<>>}), p \in OnKeys({<<v>> : v \in N12}, {<<>>})}
LF == [NewFac(LTables) EXCEPT !.fks = LKeys]
LDesc == Desc(LTables, LKeys) @@ [links |-> TRUE]
OLinks(o) == [op |-> "links", o |-> o]
OCopy(o, o2, fr) == [op |-> "copy", o |-> o, o2 |-> o2, freeze |-> fr]
LOps(d, h) == <<OMkfac("F", "tic", LDesc), OMk("F", "A", d), OLinks("A"), OFindFK("A", 0), OCopy("A", "B", h % 2 = 0), OLinks("B"),
                ORemoveFK("A", "yes"), OCopy("A", "C", FALSE), OLinks("C")>>
Init == /\ D \in LData
        /\ step = 0
        /\ first = <<>>
        /\ LET h == HashTabs(D) IN Chosen(h) => Emit(LOps(D, h))
Remove == /\ step = 0
          /\ step' = 1
          /\ first' = D
          /\ D' = RemoveAll(LF, D)
Spec == Init /\ [][Remove]_vars

Linked(X, fk, r) == {x.ck : x \in LinkEntries(LF, X, fk, Rows(X, fk.ft)[r])}
Kid(fk, c) == SubSeq(c, 1, Len(PK(LF, fk.nt)))
Exact == \A fk \in LinkFKs(LF) :
           /\ \A i \in 1..Len(Rows(D, fk.nt)) :
                 LET by == {r \in 1..Len(Rows(D, fk.ft)) : Kid(fk, Rows(D, fk.nt)[i]) \in Linked(D, fk, r)}
                 IN /\ Cardinality(by) <= 1
                    /\ (by = {}) <=> (i \in FKFailIdx(LF, D, fk))
           /\ Card(LF, fk)[1] = "one" => \A r \in 1..Len(Rows(D, fk.ft)) : Cardinality(Linked(D, fk, r)) <= 1
           \* the entry under which a child is found tells it apart from its siblings
           /\ \A r \in 1..Len(Rows(D, fk.ft)) : LET E == LinkEntries(LF, D, fk, Rows(D, fk.ft)[r]) IN \A x, y \in E : x.k = y.k => x = y
\* what removal leaves is linked as before
Kept == step = 1 => \A fk \in LinkFKs(LF) :
          /\ FKFailIdx(LF, D, fk) = {}
          /\ \A r \in 1..Len(Rows(D, fk.ft)) :
                \E s \in 1..Len(Rows(first, fk.ft)) :
                   /\ Rows(first, fk.ft)[s] = Rows(D, fk.ft)[r]
                   /\ Linked(D, fk, r) = {c \in Linked(first, fk, s) : \E i \in 1..Len(Rows(D, fk.nt)) : Kid(fk, Rows(D, fk.nt)[i]) = c}
Inv == Exact /\ Kept
=============================================================================
