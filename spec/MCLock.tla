------------------------------- MODULE MCLock -------------------------------
(* Declarations before and after first use, on a factory and on a clone of it.             *)
(* Once data was made with a factory its lockable content never changes again; a clone     *)
(* starts out unlocked and equal, and neither is affected by what happens to the other.    *)
EXTENDS MCBase
CONSTANT Fl
VARIABLES F, used, at, hist, pc
vars == <<F, used, at, hist, pc>>

Ty(n, s, z) == [num |-> n, imin |-> TRUE, imax |-> TRUE, min |-> IntV(0), max |-> PInf, int |-> FALSE, any |-> s, strs |-> <<>>, null |-> z, dt |-> FALSE]
Pred(t, n) == [t |-> t, name |-> n, resp |-> "Boolean", e |-> "ge", f |-> "c", g |-> "c", v |-> IntV(1), tru |-> "bool", msg |-> "bad row", mk |-> <<>>, auto |-> FALSE]
Tables == <<Std("parameters", <<"Key">>, <<"Value">>), Std("t1", <<"a", "b">>, <<"c">>), Std("t2", <<>>, <<"x", "y">>), Std("t3", <<"k">>, <<"a">>)>>
Base == [NewFac(Tables) EXCEPT !.dt = <<[t |-> "t1", f |-> "c", ty |-> NormType(Ty(TRUE, FALSE, FALSE))]>>,
                               !.fks = <<FK("t1", "t3", <<<<"a", "k">>>>), FK("t3", "t3", <<<<"a", "k">>>>)>>,
                               !.preds = <<PredRec(Pred("t1", "p"))>>]
BaseDesc == [Desc(Tables, Base.fks) EXCEPT !.dt = <<[t |-> "t1", f |-> "c", ty |-> Ty(TRUE, FALSE, FALSE)]>>, !.preds = <<PredRec(Pred("t1", "p"))>>]
CParams == <<[k |-> "addparam", p |-> "q", typed |-> TRUE, ty |-> Ty(TRUE, FALSE, FALSE), v |-> IntV(5), badstrs |-> 0],
            [k |-> "addparam", p |-> "q", typed |-> TRUE, ty |-> Ty(TRUE, FALSE, FALSE), v |-> Str("no"), badstrs |-> 0]>>
Ds == << [k |-> "setdt", t |-> "t1", f |-> "b", ty |-> Ty(FALSE, TRUE, TRUE), badstrs |-> 0],
         [k |-> "setdt", t |-> "t1", f |-> "nope", ty |-> Ty(FALSE, TRUE, TRUE), badstrs |-> 0],
         [k |-> "cleardt", t |-> "t1", f |-> "c"],
         [k |-> "cleardt", t |-> "t1", f |-> "b"],
         [k |-> "setdv", t |-> "t1", f |-> "c", v |-> Str("z")],
         [k |-> "addfk", nt |-> "t2", ft |-> "t3", m |-> <<<<"x", "k">>>>, form |-> "ok", nest |-> FALSE, tup |-> FALSE],
         [k |-> "clearfk", t |-> "t1"],
         [k |-> "clearfk", t |-> ""],
         [k |-> "addpred", p |-> Pred("t1", "new"), bad |-> ""],
         [k |-> "rmpred", t |-> "t1", name |-> "p"],
         [k |-> "tip", t |-> "t1", f |-> "c", v |-> Str("tip")],
         [k |-> "inf", v |-> IntV(1000)],
         [k |-> "inf", v |-> IntV(-1)],
         [k |-> "dups", v |-> Str("warn")],
         [k |-> "munge", v |-> BoolV(FALSE)],
         [k |-> "rmparam", p |-> "q"] >> \o CParams \o
      IF Fl = "tic" THEN << [k |-> "implied"], [k |-> "setgens", ts |-> <<"t2">>, form |-> "list"], [k |-> "setgens", ts |-> <<"t1">>, form |-> "list"],
                            [k |-> "trail", v |-> Str("ignore")] >> ELSE <<>>
DS == {Ds[i] : i \in 1..Len(Ds)}
MK(f, o) == OMk(f, o, <<Data("parameters", <<>>), Data("t1", <<<<IntV(1), IntV(1), IntV(0)>>, <<IntV(1), IntV(2), IntV(3)>>>>), Data("t2", <<>>),
                        Data("t3", <<<<IntV(1), IntV(2)>>>>)>>)
Fs == DOMAIN F
Do(f, d) == /\ f \in Fs
            /\ LET r == Decl(F[f], d) IN F' = [F EXCEPT ![f] = IF (used[f] /\ Locks(@, d)) THEN @ ELSE r.fac]
            /\ hist' = Append(hist, ODecl(f, d))
            /\ UNCHANGED <<used, at>>
Use(f) == /\ ~used[f]
          /\ used' = [used EXCEPT ![f] = TRUE]
          /\ at' = [at EXCEPT ![f] = F[f]]
          /\ hist' = Append(hist, MK(f, "A" \o f))
          /\ UNCHANGED F
Clone == /\ Fs = {"F"}
         /\ F' = [x \in {"F", "G"} |-> CloneFac(F["F"], Fl, [restrict |-> <<>>, fl2 |-> Fl, via |-> "class", conv |-> TRUE])]
         /\ used' = [x \in {"F", "G"} |-> IF x = "F" THEN used["F"] ELSE FALSE]
         /\ at' = [x \in {"F", "G"} |-> at["F"]]
         /\ hist' = Append(hist, OClone("F", "G", Fl))
Init == /\ F = [x \in {"F"} |-> Base]
        /\ used = [x \in {"F"} |-> FALSE]
        /\ at = [x \in {"F"} |-> Base]
        /\ hist = <<OMkfac("F", Fl, BaseDesc)>>
        /\ pc = 0
Finish(h) == h \o <<[op |-> "fklist", f |-> "F"], [op |-> "schema", f |-> "F"]>>
               \o (IF used["F"] /\ Tab(F["F"], "t2").kind = "std" THEN <<OFindFK("AF", 0), OFindRow("AF", "", 0), OFindDT("AF", 0)>> ELSE <<>>)
LHash(h) == Mix([i \in 1..Len(h) |-> IF h[i].op = "decl" THEN (CHOOSE j \in 1..Len(Ds) : Ds[j] = h[i].d) * 2 + (IF h[i].f = "F" THEN 0 ELSE 1)
                                     ELSE 60 + Len(h[i].op)], 1, 1)
Next == /\ pc < 5
        /\ pc' = pc + 1
        /\ CASE pc = 0 -> (\E d \in DS : Do("F", d)) \/ Use("F")
             [] pc = 1 -> Use("F") \/ Clone \/ (\E d \in DS : Do("F", d) /\ d.k \in {"addparam", "addfk", "setgens", "rmpred"})
             [] pc = 2 -> (Fs = {"F"} /\ Clone) \/ (\E f \in Fs : Use(f)) \/ UNCHANGED <<F, used, at, hist>>
             [] pc = 3 -> \E f \in Fs, d \in DS : Do(f, d)
             [] OTHER  -> \E f \in Fs, d \in {x \in DS : Locks(Base, x)} : Do(f, d)
        /\ pc = 4 => (Chosen(LHash(hist')) => Emit(Finish(hist')))
Spec == Init /\ [][Next]_vars
Frozen == \A f \in Fs : used[f] => LET A == F[f] B == at[f] IN
            /\ A.tables = B.tables /\ A.dt = B.dt /\ A.dv = B.dv /\ A.fks = B.fks /\ A.preds = B.preds
            /\ \A i \in 1..Len(A.params) : InSeq(B.params, A.params[i])
Inv == Frozen
=============================================================================
