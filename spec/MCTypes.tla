------------------------------- MODULE MCTypes -------------------------------
(* Data types: the whole grid of declarations against a value of every sort.  What a       *)
(* declaration accepts is unchanged by its normalisation, monotone in every setting, and   *)
(* replacing failures leaves none, touching failing cells only.                            *)
EXTENDS MCBase
VARIABLES ty, repl, D, step
vars == <<ty, repl, D, step>>

Cells == <<MInf, IntV(-3), IntV(0), Num(2), IntV(1), IntV(7), PInf, Str("a"), Str("b"), Str(""), Str("2020-01-02"), Null,
           V("date", 0, "2020-01-02T00:00:00")>>
Ranges == {<<IntV(0), PInf>>, <<MInf, IntV(1)>>, <<IntV(0), IntV(1)>>, <<MInf, PInf>>, <<IntV(1), IntV(1)>>, <<IntV(0), IntV(7)>>}
Types == {[num |-> n, imin |-> a, imax |-> b, min |-> r[1], max |-> r[2], int |-> i, any |-> s = "any", strs |-> IF s = "a" THEN <<"a">> ELSE <<>>,
           null |-> z, dt |-> d] :
             n \in BOOLEAN, a \in BOOLEAN, b \in BOOLEAN, r \in Ranges, i \in BOOLEAN, s \in {"none", "a", "any"}, z \in BOOLEAN, d \in BOOLEAN}
\* settings that do not matter are left alone
Relevant(x) == /\ x.dt => (x.num = FALSE /\ ~x.any /\ x.strs = <<>>)
               /\ ~x.num => (x.imin /\ x.imax /\ x.min = IntV(0) /\ x.max = PInf /\ ~x.int)
CRepls == {IntV(0), IntV(1), Str("a"), Null, Str("zz")}
Tables == <<Std("t", <<"k">>, <<"f">>), Std("u", <<"f", "k">>, <<>>)>>
Fac(x) == [NewFac(Tables) EXCEPT !.dt = <<[t |-> "t", f |-> "f", ty |-> NormType(x)], [t |-> "u", f |-> "f", ty |-> NormType(x)]>>]
D0 == <<Data("t", [i \in 1..Len(Cells) |-> <<IntV(i), Cells[i]>>]), Data("u", [i \in 1..Len(Cells) |-> <<Cells[i], IntV(1)>>])>>
R(v) == <<[t |-> "t", f |-> "f", v |-> v]>>
THash(x) == Mix([j \in 1..Len(Cells) |-> IF Valid(x, Cells[j]) THEN 1 ELSE 0], 1, Code(x.min) * 7 + Code(x.max))
Ops(fl, x, v) == <<OMkfac("F", fl, [Desc(Tables, <<>>) EXCEPT !.dt = <<[t |-> "t", f |-> "f", ty |-> x], [t |-> "u", f |-> "f", ty |-> x]>>]),
                   [OMk("F", "A", D0) EXCEPT !.obj = TRUE], OFindDT("A", 0), OFindDT("A", 3), OReplace("A", R(v)), OFindDT("A", 0),
                   OReplace("A", R(v))>>
Init == /\ ty \in {x \in Types : Relevant(x)}
        /\ repl \in CRepls
        /\ D = D0
        /\ step = 0
        /\ LET h == Mix(<<THash(ty), Code(repl)>>, 1, 1) IN Chosen(h) => Emit(Ops(IF (h \div 1009) % 2 = 0 THEN "tic" ELSE "pan", ty, repl))
Replace == /\ step < 2
           /\ step' = step + 1
           /\ D' = IF ReplRefused(Fac(ty), D, "tic", R(repl)) THEN D ELSE ReplaceDT(Fac(ty), D, "tic", R(repl))
           /\ UNCHANGED <<ty, repl>>
Spec == Init /\ [][Replace]_vars

Monotone == step = 0 => \A j \in 1..Len(Cells) : LET v == Cells[j] IN
    /\ Valid(NormType(ty), v) <=> Valid(ty, v)
    /\ NormType(NormType(ty)) = NormType(ty)
    /\ Valid(ty, v) => /\ Valid([ty EXCEPT !.null = TRUE], v)
                       /\ Valid([ty EXCEPT !.imin = TRUE, !.imax = TRUE], v)
                       /\ Valid([ty EXCEPT !.int = FALSE], v)
                       /\ Valid([ty EXCEPT !.any = TRUE], v)
                       /\ Valid([ty EXCEPT !.max = PInf], v) \/ v = PInf
                       /\ (ty.num => Valid([ty EXCEPT !.min = MInf], v))
    /\ Valid(ty, v) => (IsNull(v) => ty.null)
Repaired == (step > 0 /\ ~ReplRefused(Fac(ty), D0, "tic", R(repl))) =>
    /\ DTFailIdx(Fac(ty), D, "t", "f") = {}
    /\ Rows(D, "u") = Rows(D0, "u")
    /\ \A i \in 1..Len(Cells) : LET old == Rows(D0, "t")[i][2] new == Rows(D, "t")[i][2]
                                IN IF Valid(ty, old) THEN new = old ELSE new = repl
LeftAlone == (step > 0 /\ ReplRefused(Fac(ty), D0, "tic", R(repl))) => (D = D0 /\ ~Valid(ty, repl))
Inv == Monotone /\ Repaired /\ LeftAlone
=============================================================================
