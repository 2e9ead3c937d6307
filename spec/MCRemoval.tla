------------------------------ MODULE MCRemoval ------------------------------
(* Removal of foreign key failures.  Rows that fail are dropped one at a time, in any      *)
(* order: every order ends in the same data, the greatest part of the data without         *)
(* failures, which is what the cascading removal of Integrity.tla computes.                *)
EXTENDS MCBase
CONSTANT Shape
VARIABLES F, D, D0
vars == <<F, D, D0>>

CVals == {IntV(1), IntV(2), Null}
Tables == CASE Shape = 1 -> <<Std("a", <<"k">>, <<"x">>), Std("b", <<"k">>, <<"y", "z">>)>>
            [] Shape = 2 -> <<Std("a", <<"k", "l">>, <<>>), Std("b", <<"k">>, <<"y", "z">>)>>
            [] Shape = 3 -> <<Std("a", <<>>, <<"x", "y">>), Std("b", <<"k">>, <<"y">>), Std("c", <<"k">>, <<"y">>)>>
Keys == CASE Shape = 1 -> <<FK("a", "b", <<<<"x", "k">>>>), FK("b", "a", <<<<"y", "k">>>>), FK("b", "b", <<<<"z", "k">>>>), FK("a", "b", <<<<"k", "k">>>>)>>
          [] Shape = 2 -> <<FK("b", "a", <<<<"y", "k">>, <<"z", "l">>>>), FK("a", "b", <<<<"k", "k">>>>), FK("b", "a", <<<<"y", "l">>>>)>>
          [] Shape = 3 -> <<FK("a", "b", <<<<"x", "k">>>>), FK("b", "c", <<<<"k", "k">>>>), FK("c", "b", <<<<"y", "k">>>>), FK("a", "a", <<<<"x", "y">>>>)>>
One == {<<v>> : v \in CVals}
Two == {<<v, w>> : v \in CVals, w \in CVals}
Pairs == <<<<IntV(1), IntV(1)>>, <<IntV(1), IntV(2)>>, <<IntV(2), IntV(1)>>>>
Ks == <<<<IntV(1)>>, <<IntV(2)>>>>
Contents == CASE Shape = 1 -> {<<Data("a", x), Data("b", y)>> : x \in Keyed(Ks, One), y \in Keyed(Ks, Two)}
              [] Shape = 2 -> {<<Data("a", x), Data("b", y)>> : x \in Keyed(Pairs, {<<>>}), y \in Keyed(Ks, Two)}
              [] Shape = 3 -> {<<Data("a", x), Data("b", y), Data("c", z)>> :
                                 x \in {<<>>} \cup {<<r>> : r \in Two} \cup {<<r, r>> : r \in Two},
                                 y \in Keyed(Ks, One), z \in Keyed(Ks, {<<IntV(1)>>, <<IntV(2)>>})}
Fac(fks) == [NewFac(Tables) EXCEPT !.fks = fks]
Ops(fl) == <<OMkfac("F", fl, Desc(Tables, F.fks)), OMk("F", "A", D), OFindFK("A", 0), OFindFK("A", 1), ORemoveFK("A", "no"), OFindFK("A", 0),
             ORemoveFK("A", "default"), OFindFK("A", 0)>>
FHash(fks) == Mix([i \in 1..Len(fks) |-> CHOOSE j \in 1..Len(Keys) : Keys[j] = fks[i]], 1, 1)
Init == /\ F \in {Fac(s) : s \in Subs(Keys)}
        /\ D \in Contents
        /\ D0 = D
        /\ LET h == Mix(<<HashTabs(D), FHash(F.fks)>>, 1, 1) IN
           Chosen(h) => Emit(Ops(IF Nulls(D) \/ (h \div 1009) % 2 = 0 THEN "tic" ELSE "pan"))
DropOne == \E t \in TabNames(F) : \E i \in FailIdxOfTable(F, D, t) :
              /\ D' = SetRows(D, t, Drop(Rows(D, t), {i}))
              /\ UNCHANGED <<F, D0>>
Spec == Init /\ [][DropOne]_vars

Part(A, B) == \A i \in 1..Len(A) : IsSubSeq(A[i].rows, B[i].rows)
\* all parts of the data
RECURSIVE Parts(_, _)
Parts(d, i) == IF i > Len(d) THEN {<<>>} ELSE {<<[d[i] EXCEPT !.rows = r]>> \o m : r \in Subs(d[i].rows), m \in Parts(d, i + 1)}
Confluent == HasFKFailures(F, D) \/ D = RemoveAll(F, D0)
Greatest == D = D0 => LET R == RemoveAll(F, D0) IN
                /\ ~HasFKFailures(F, R) /\ Part(R, D0)
                /\ \A P \in Parts(D0, 1) : ~HasFKFailures(F, P) => Part(P, R)
Idempotent == D = D0 => RemoveAll(F, RemoveAll(F, D0)) = RemoveAll(F, D0)
PassExact == D = D0 => \A t \in TabNames(F) : Len(Rows(RemovePass(F, D), t)) = Len(Rows(D, t)) - Cardinality(FailIdxOfTable(F, D, t))
Inv == Confluent /\ Greatest /\ Idempotent /\ PassExact
=============================================================================
