------------------------------ MODULE MCParams ------------------------------
(* Parameters: every declaration of one parameter beside an untyped one, every pair of       *)
(* stored values, every format.  What is stored wins over what is declared, everything        *)
(* declared or stored resolves to exactly one value, defaults are never reported, and a       *)
(* stored value that a format represents comes back with its declared typing.                 *)
EXTENDS MCBase
VARIABLES cfg, rows, step
vars == <<cfg, rows, step>>

PTy(n, i, s, strs, z, d) == [num |-> n, imin |-> TRUE, imax |-> TRUE, min |-> IntV(0), max |-> PInf, int |-> i, any |-> s, strs |-> strs, null |-> z, dt |-> d]
PTypes == {PTy(TRUE, FALSE, FALSE, <<>>, FALSE, FALSE), PTy(TRUE, TRUE, FALSE, <<>>, TRUE, FALSE), PTy(FALSE, FALSE, TRUE, <<>>, FALSE, FALSE),
           PTy(FALSE, FALSE, FALSE, <<"a", "12">>, FALSE, FALSE), PTy(FALSE, FALSE, TRUE, <<>>, TRUE, FALSE), PTy(TRUE, FALSE, FALSE, <<"a">>, FALSE, FALSE),
           PTy(FALSE, FALSE, FALSE, <<>>, FALSE, TRUE), PTy(FALSE, FALSE, FALSE, <<>>, TRUE, TRUE)}
PVals == <<IntV(-3), IntV(0), Num(30), PInf, Str("a"), Str("12"), Str("None"), Str("2020-01-02"), CDate, Null, BoolV(TRUE), Str("")>>
PRaw == {IntV(-3), IntV(0), Num(30), PInf, CDate, Null, BoolV(TRUE), IntV(12)} \cup {Str(CTexts[i][1]) : i \in 1..Len(CTexts)}
Firsts(x) == {v \in Range(PVals) : Valid(NormType(x), v) /\ ~IsBool(v)}
PTables == <<Std("parameters", <<"Name">>, <<"Value">>)>>
Par(c) == <<[p |-> "p1", typed |-> TRUE, ty |-> c.ty, v |-> c.def], [p |-> "p2", typed |-> FALSE, ty |-> NoType, v |-> IntV(1)]>>
PDesc(c) == [Desc(PTables, <<>>) EXCEPT !.params = Par(c)]
Fac(c) == FromDesc(PDesc(c), c.fl)
Ways(fl) == IF fl = "tic" THEN {<<"csv", "cols", FALSE>>, <<"json", "lists", FALSE>>, <<"sqlite", "cols", FALSE>>, <<"sqltext", "cols", TRUE>>, <<"xls", "cols", FALSE>>, <<"xlsx", "cols", FALSE>>}
            ELSE {<<"csv", "cols", FALSE>>, <<"json", "lists", FALSE>>, <<"json", "split", FALSE>>, <<"sqlite", "cols", FALSE>>, <<"xlsx", "cols", FALSE>>}
Keys == <<"p1", "p2", "zz">>
D == <<Data("parameters", rows)>>
OFull(o) == [op |-> "fullparams", o |-> o]
\* columns the replayed behaviours stay away from
Shy(c, v) == \/ c.fl = "pan" /\ (v = Str("") \/ IsBool(v))
             \/ c.ty.dt /\ IsNum(v)
             \/ IsBool(v)
POps(c, rs) == <<OMkfac("F", c.fl, PDesc(c)), [OMk("F", "A", <<Data("parameters", rs)>>) EXCEPT !.obj = TRUE], OFull("A"), OFindRow("A", "", 0)>> \o
               (IF \E i \in 1..Len(rs) : Shy(c, rs[i][2]) THEN <<>>
                ELSE <<OWrite("A", "s0", c.way), ORead("s0", "B"), OFull("B"), OFindRow("B", "", 0), OWrite("B", "s1", c.way), ORead("s1", "C")>>)
PHash(c, rs) == Mix(<<Code(c.ty.min) + Len(c.ty.strs), IF c.ty.num THEN 1 ELSE 2, IF c.ty.any THEN 3 ELSE 5, IF c.ty.null THEN 7 ELSE 11, IF c.ty.dt THEN 13 ELSE 17,
                      Code(c.def), Len(c.way[1]) * 3 + Len(c.way[2]), Len(c.fl), HashRows(rs)>>, 1, 1)
Init == /\ \E fl \in {"tic", "pan"}, x \in PTypes : \E v \in Firsts(x), w \in Ways(fl) : cfg = [fl |-> fl, ty |-> x, def |-> v, way |-> w]
        /\ rows = <<>> /\ step = 0
Store == /\ step = 0
         /\ step' = 1
         /\ \E i \in 1..Len(PVals), j \in {1, 4, 5, 6, 8, 9, 10}, n \in 1..Len(Keys) :
               rows' = CASE n = 1 -> <<<<Str("p1"), PVals[i]>>>>
                         [] n = 2 -> <<<<Str("p1"), PVals[i]>>, <<Str("p2"), PVals[j]>>>>
                         [] OTHER -> <<<<Str("zz"), PVals[i]>>, <<Str("p2"), PVals[j]>>>>
         /\ UNCHANGED cfg
         /\ (Chosen(PHash(cfg, rows')) /\ ~(cfg.ty.dt /\ \E i \in 1..Len(rows') : rows'[i][2] = Str("12"))) => Emit(POps(cfg, rows'))
Spec == Init /\ [][Store]_vars

Fn == FullParams(Fac(cfg), D)
Resolves == /\ {x[1] : x \in Fn} = {Str("p1"), Str("p2")} \cup {rows[i][1] : i \in 1..Len(rows)}
            /\ \A x, y \in Fn : x[1] = y[1] => x = y
            /\ \A i \in 1..Len(rows) : <<rows[i][1], rows[i][2]>> \in Fn
Defaults == LET whole == <<Data("parameters", SeqOf({<<x[1], x[2]>> : x \in FullParams(Fac(cfg), <<Data("parameters", <<>>)>>)}))>>
            IN ParamFailIdx(Fac(cfg), whole) = {}
Reported == \A i \in 1..Len(rows) : i \in ParamFailIdx(Fac(cfg), D) <=>
                \/ rows[i][1] = Str("zz")
                \/ rows[i][1] = Str("p1") /\ ~Valid(NormType(cfg.ty), rows[i][2])
Fmt == cfg.way[1]
Cells(i) == {c \in PRaw : Denotes(cfg.fl, Fmt, cfg.way[2], LX, "none", rows[i][2], c)}
Enc == IF Len(rows) = 1 THEN {<<c>> : c \in Cells(1)} ELSE LET x == Cells(1) y == Cells(2) IN {<<c, d>> : c \in x, d \in y}
Dec(e) == IF cfg.fl = "tic"
          THEN [i \in 1..Len(e) |-> ParamTic(Fac(cfg), LX, rows[i][1], DecTic(Fac(cfg), Fmt, LX, "parameters", "Value", e[i], TRUE))]
          ELSE LET m == Infer(Fac(cfg), Fmt, cfg.way[2], LX, "parameters", "Value", e) IN [i \in 1..Len(e) |-> ParamPan(Fac(cfg), Fmt, LX, rows[i][1], m[i])]
Vals1 == [i \in 1..Len(rows) |-> rows[i][2]]
Rep == IF cfg.fl = "tic" THEN \A i \in 1..Len(rows) : RepTic(Fac(cfg), Fmt, LX, "parameters", "Value", rows[i][2], rows[i][1])
       ELSE RepPanCol(Fac(cfg), Fmt, cfg.way[2], LX, "parameters", "Value", Vals1, [i \in 1..Len(rows) |-> rows[i][1]])
\* some raw file denotes it, and whichever does gives it back
Faithful == (step = 1 /\ Rep) => Enc # {} /\ \A e \in Enc : TLCEval(Dec(e)) = Vals1
Inv == Resolves /\ Defaults /\ Reported /\ Faithful
=============================================================================
