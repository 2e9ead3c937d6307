-------------------------------- MODULE MCObf --------------------------------
(* Obfuscation of every small data set: whatever one-to-one numbering is used, the copy has  *)
(* no key failures, children keep their parents, nothing but names changes, and renaming     *)
(* back gives the original.  Copies of copies are renamings of the original too.             *)
EXTENDS MCBase
CONSTANT Shape
VARIABLES D, e, step, orig
vars == <<D, e, step, orig>>

\* 1: two roles of one entity.  2: an extension of an entity, and a second entity.  3: an entity that refers to itself.
BTables == CASE Shape = 1 -> <<Std("c", <<"i", "j">>, <<"x">>), Std("p", <<"k">>, <<"v">>)>>
             [] Shape = 2 -> <<Std("c", <<"k">>, <<"n">>), Std("p", <<"k">>, <<>>), Std("q", <<"k">>, <<"y">>), Std("r", <<"n">>, <<>>)>>
             [] OTHER -> <<Std("c", <<>>, <<"z", "w">>), Std("p", <<"k">>, <<"d">>)>>
BKeys == CASE Shape = 1 -> <<FK("c", "p", <<<<"i", "k">>>>), FK("c", "p", <<<<"j", "k">>>>)>>
           [] Shape = 2 -> <<FK("c", "q", <<<<"k", "k">>>>), FK("q", "p", <<<<"k", "k">>>>), FK("c", "r", <<<<"n", "n">>>>)>>
           [] OTHER -> <<FK("c", "p", <<<<"z", "k">>>>), FK("p", "p", <<<<"d", "k">>>>)>>
\* names and numbers; P1 and A1 look like new names
BVals == {IntV(1), Str("a"), Str("P1")}
Few(K, rest, n) == UNION {Keyed(SeqOf(S), rest) : S \in {X \in SUBSET K : Cardinality(X) <= n}}
BData == CASE Shape = 1 -> {<<Data("c", c), Data("p", p)>> : c \in Few({<<x, y>> : x, y \in BVals}, {<<IntV(1)>>}, 2), p \in Few({<<v>> : v \in BVals}, {<<IntV(1)>>, <<Str("a")>>}, 3)}
           [] Shape = 2 -> {<<Data("c", c), Data("p", p), Data("q", q), Data("r", r)>> :
                               c \in Few({<<v>> : v \in BVals}, {<<Str("a")>>, <<IntV(1)>>}, 2), p \in Few({<<v>> : v \in BVals}, {<<>>}, 2),
                               q \in Few({<<v>> : v \in BVals}, {<<IntV(1)>>}, 2), r \in Few({<<IntV(1)>>, <<Str("a")>>}, {<<>>}, 2)}
           [] OTHER -> {<<Data("c", c), Data("p", p)>> : c \in {<<>>} \cup {<<<<x, y>>>> : x, y \in BVals} \cup {<<<<x, IntV(1)>>, <<x, IntV(1)>>>> : x \in BVals},
                                                         p \in Few({<<v>> : v \in BVals}, {<<v>> : v \in BVals}, 3)}
BF == [NewFac(BTables) EXCEPT !.fks = BKeys]
EntSeq == IF Shape = 2 THEN <<"p", "r">> ELSE <<"p">>
PreP(t, p) == [t |-> t, p |-> p, ok |-> TRUE]
\* prefixes and tables left alone
Asked == {<< <<>>, <<>> >>, << <<PreP("p", "P")>>, <<>> >>, << <<>>, <<"p">> >>, << <<PreP("p", "P")>>, <<"p">> >>, << <<PreP("c", "Z")>>, <<>> >>}
         \cup (IF Shape = 2 THEN {<< <<PreP("p", "P"), PreP("r", "P")>>, <<>> >>, << <<PreP("r", "P")>>, <<"p">> >>, << <<>>, <<"q">> >>, << <<>>, <<"r", "p">> >>} ELSE {})
PfxOf(q, t) == LET hit == {i \in 1..Len(q[1]) : q[1][i].t = t} IN IF hit # {} THEN q[1][CHOOSE i \in hit : TRUE].p ELSE IF t = "p" THEN "A" ELSE "B"
Digit(i) == ToString(i)
\* numbered from the front or from the back
Ren(X, q, back) == LET of(t) == IF InSeq(q[2], t) THEN <<>>
                                ELSE LET n == Len(Rows(X, t)) IN [i \in 1..n |-> [t |-> t, old |-> Rows(X, t)[i][1], p |-> PfxOf(q, t),
                                                                       new |-> Str(PfxOf(q, t) \o Digit(IF back THEN n + 1 - i ELSE i))]]
                   IN Flatten([i \in 1..Len(EntSeq) |-> of(EntSeq[i])])
Call(X, q, back) == [o |-> "A", o2 |-> "B", pre |-> q[1], skip |-> q[2], freeze |-> FALSE, ret |-> [ok |-> TRUE, ren |-> Ren(X, q, back)]]
OObf(o, o2, q) == [op |-> "obf", o |-> o, o2 |-> o2, pre |-> q[1], skip |-> q[2], freeze |-> FALSE]
BOps(X, q) == <<OMkfac("F", IF HashTabs(X) % 3 = 0 THEN "pan" ELSE "tic", Desc(BTables, BKeys)), OMk("F", "A", X), OObf("A", "B", q), OFindFK("A", 0)>>
              \o (IF ObfRefused(BF, X, Call(X, q, FALSE)) THEN <<ORemoveFK("A", "yes"), OObf("A", "C", q)>> ELSE <<OFindFK("B", 0), OObf("B", "C", q)>>)
Init == /\ D \in BData
        /\ orig = D
        /\ step = 0
        /\ \E q \in Asked : /\ e = Call(D, q, FALSE)
                            /\ Chosen(Mix(<<HashTabs(D), Len(q[1]), Len(q[2]), IF q[1] = <<>> THEN 0 ELSE Len(q[1][1].t)>>, 1, 1)) => Emit(BOps(D, q))
\* obfuscated, in either direction, or - where key failures are in the way - without them
Step == \/ /\ step < 2
           /\ ~ObfRefused(BF, D, e)
           /\ step' = step + 1
           /\ \E back \in BOOLEAN : LET c == Call(D, <<e.pre, e.skip>>, back)
                                        X == ObfTabs(BF, D, c)
                                    IN D' = X /\ orig' = D /\ e' = c
        \/ /\ step = 0
           /\ HasFKFailures(BF, D)
           /\ D' = RemoveAll(BF, D)
           /\ orig' = D'
           /\ e' = Call(D', <<e.pre, e.skip>>, FALSE)
           /\ step' = 0
Spec == Init /\ [][Step]_vars

Legal == /\ ~(\E i \in 1..Len(e.pre) : InSeq(e.skip, e.pre[i].t) \/ ~InSeq(EntSeq, e.pre[i].t) \/ \E j \in 1..Len(e.pre) : j # i /\ e.pre[i].p = e.pre[j].p)
         /\ Range(e.skip) \subseteq Range(EntSeq)
Refusal == step = 0 => (ObfRefused(BF, D, e) <=> HasFKFailures(BF, D) \/ ~Legal)
Entities == EntityTables(BF) = Range(EntSeq)
Back(X) == ObfTabs(BF, X, [e EXCEPT !.ret.ren = [i \in 1..Len(@) |-> [@[i] EXCEPT !.old = e.ret.ren[i].new, !.new = e.ret.ren[i].old]]])
Parents(X, fk, i) == {r \in 1..Len(Rows(X, fk.ft)) : \A p \in fk.m : Norm(Rows(X, fk.nt)[i][Idx(BF, fk.nt, p[1])]) = Norm(Rows(X, fk.ft)[r][Idx(BF, fk.ft, p[2])])}
Renames == step > 0 =>
    /\ RenOK(BF, orig, e)
    /\ ~HasFKFailures(BF, D)
    /\ Back(D) = orig
    /\ \A n \in 1..Len(D) : Len(D[n].rows) = Len(orig[n].rows)
    /\ \A n \in 1..Len(D) : DupIdx(BF, D, D[n].t, "first") = DupIdx(BF, orig, D[n].t, "first")
    /\ \A fk \in FKSetOf(BF.fks) : \A i \in 1..Len(Rows(D, fk.nt)) : Parents(D, fk, i) = Parents(orig, fk, i)
Inv == Entities /\ Refusal /\ Renames
=============================================================================
