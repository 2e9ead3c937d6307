------------------------------ MODULE MCImplied ------------------------------
(* Implied foreign keys.  Keys are derived one at a time, in any order: every order ends  *)
(* in the same set of keys, and data has failures under the declared keys exactly when it  *)
(* has failures under them and the derived ones.                                           *)
EXTENDS MCBase
CONSTANT MaxKeys
VARIABLES F, F0
vars == <<F, F0>>

Tables == <<Std("a", <<"k">>, <<"x">>), Std("b", <<"k">>, <<"y">>), Std("c", <<"k", "l">>, <<>>), Std("d", <<>>, <<"u", "v">>)>>
Keys == <<FK("a", "b", <<<<"x", "k">>>>), FK("b", "a", <<<<"k", "k">>>>), FK("b", "a", <<<<"y", "k">>>>), FK("c", "a", <<<<"k", "k">>>>),
          FK("d", "c", <<<<"u", "k">>, <<"v", "l">>>>), FK("d", "c", <<<<"v", "l">>>>), FK("a", "a", <<<<"x", "k">>>>), FK("c", "b", <<<<"k", "k">>>>),
          FK("c", "b", <<<<"l", "k">>>>), FK("d", "a", <<<<"u", "k">>>>)>>
Ks == <<<<IntV(1)>>, <<IntV(2)>>>>
One == {<<IntV(1)>>, <<IntV(2)>>}
Contents == {<<Data("a", x), Data("b", y), Data("c", z), Data("d", u)>> :
               x \in Keyed(Ks, {<<IntV(2)>>}) \cup {<<<<IntV(1), IntV(1)>>>>}, y \in Keyed(Ks, {<<IntV(1)>>}),
               z \in {<<>>, <<<<IntV(1), IntV(2)>>>>, <<<<IntV(2), IntV(2)>>>>, <<<<IntV(2), IntV(1)>>, <<IntV(1), IntV(2)>>>>},
               u \in {<<>>, <<<<IntV(1), IntV(2)>>>>, <<<<IntV(2), IntV(2)>>, <<IntV(2), IntV(1)>>>>}}
Fac(fks) == [NewFac(Tables) EXCEPT !.fks = fks]
FHash(fks) == Mix([i \in 1..Len(fks) |-> CHOOSE j \in 1..Len(Keys) : Keys[j] = fks[i]], 1, 1)
ODeclImplied == ODecl("F", [k |-> "implied"])
OFklist == [op |-> "fklist", f |-> "F"]
DataFor(h) == LET S == {D \in Contents : HashTabs(D) % 29 = h % 29} IN IF S = {} THEN CHOOSE D \in Contents : TRUE ELSE CHOOSE D \in S : TRUE
Ops(h) == <<OMkfac("F", "tic", Desc(Tables, F.fks)), ODeclImplied, OFklist, OMk("F", "A", DataFor(h)), OFindFK("A", 0),
                ORemoveFK("A", "default"), OFindFK("A", 0), OClone("F", "G", "pan"), OMk("G", "B", DataFor(h + 7)), OFindFK("B", 0), ORemoveFK("B", "yes"), OFindFK("B", 0)>>
Init == /\ \E s \in Subs(Keys) : Len(s) <= MaxKeys /\ F = Fac(s)
        /\ F0 = F
        /\ LET h == FHash(F.fks) IN Chosen(h) => Emit(Ops(h))
AsSeq(k) == [nt |-> k.nt, ft |-> k.ft, m |-> SeqOf(k.m)]
Derive == \E k \in Derived(F, FKSetOf(F.fks)) \ FKSetOf(F.fks) : F' = [F EXCEPT !.fks = Append(@, AsSeq(k))] /\ UNCHANGED F0
View == <<F0.fks, FKSetOf(F.fks)>>
Spec == Init /\ [][Derive]_vars

Done == Derived(F, FKSetOf(F.fks)) \subseteq FKSetOf(F.fks)
Confluent == Done => FKSetOf(F.fks) = FKSetOf(Implied(F0).fks)
Verdict == F = F0 => LET I == Implied(F0) IN
             /\ \A D \in Contents : HasFKFailures(F0, D) <=> HasFKFailures(I, D)
             /\ FKSetOf(Implied(I).fks) = FKSetOf(I.fks)
             /\ FKSetOf(F0.fks) \subseteq FKSetOf(I.fks)
Removal == F = F0 => LET I == Implied(F0) IN \A D \in Contents : HashTabs(D) % 7 = 0 => RemoveAll(F0, D) = RemoveAll(I, D)
Inv == Confluent /\ Verdict /\ Removal
=============================================================================
