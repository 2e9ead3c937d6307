------------------------------- MODULE MCStore -------------------------------
(* Files, one column at a time: for every declaration, default and way of writing infinity, *)
(* what a format is said to represent (stated on its own) does come back from whatever raw *)
(* cells denote what was written; writing what was read and reading it again changes       *)
(* nothing more.                                                                           *)
EXTENDS MCBase
CONSTANTS CWide      \* columns of at most so many rows
VARIABLES cfg, step, cells, back, again
vars == <<cfg, step, cells, back, again>>

CNums == <<MInf, IntV(-3), IntV(0), Num(30), IntV(20000), PInf, Null>>
CStrs == <<Str("a"), Str(""), Str("12"), Str("inf"), Str("True"), Str("None"), Null>>
CDays == <<CDate, Null>>
CMore == <<Str("a"), IntV(-3), PInf, Null, BoolV(TRUE), Str("12")>>
Vals4 == [num |-> CNums, str |-> CStrs, day |-> CDays, mix |-> CMore]
\* what may be found in files
CRaw == Range(CNums) \cup {Str(CTexts[i][1]) : i \in 1..Len(CTexts)} \cup {CDate, BoolV(TRUE), IntV(1), IntV(10000), IntV(-10000), IntV(12)}
Ty(n, lo, hi, s, z, d) == [num |-> n, imin |-> lo = MInf \/ lo = IntV(0), imax |-> hi = PInf, min |-> lo, max |-> IF hi = PInf THEN PInf ELSE IF hi = Null THEN PInf ELSE hi,
                           int |-> FALSE, any |-> s, strs |-> <<>>, null |-> z, dt |-> d]
Types == {<<>>} \cup {<<Ty(TRUE, lo, hi, s, z, FALSE)>> : lo \in {MInf, IntV(0)}, hi \in {PInf, Null}, s \in BOOLEAN, z \in BOOLEAN}
         \cup {<<Ty(FALSE, IntV(0), PInf, TRUE, z, FALSE)>> : z \in BOOLEAN} \cup {<<Ty(FALSE, IntV(0), PInf, FALSE, z, TRUE)>> : z \in BOOLEAN}
Defs == {<<>>, <<Str("d")>>, <<Null>>}
Flags == {Str("N/A"), Null, IntV(10000)}
Ways(fl) == IF fl = "tic" THEN {<<"csv", "cols", FALSE>>, <<"json", "lists", FALSE>>, <<"json", "dicts", FALSE>>, <<"sqlite", "cols", FALSE>>,
                                <<"sqltext", "cols", TRUE>>, <<"sqltext", "cols", FALSE>>, <<"xls", "cols", FALSE>>, <<"xlsx", "cols", FALSE>>}
            ELSE {<<"csv", "cols", FALSE>>, <<"json", "lists", FALSE>>, <<"json", "split", FALSE>>, <<"sqlite", "cols", FALSE>>, <<"xlsx", "cols", FALSE>>}
CTables == <<Std("t", <<"k">>, <<"f">>)>>
CDv(c) == IF c.def = <<>> THEN <<>> ELSE <<[t |-> "t", f |-> "f", v |-> c.def[1]]>>
Fac(c) == LET N == NewFac(CTables) IN
          [N EXCEPT !.dt = IF c.ty = <<>> THEN <<>> ELSE <<[t |-> "t", f |-> "f", ty |-> NormType(c.ty[1])]>>,
                    !.dv = IF c.def = <<>> THEN N.dv ELSE CDv(c), !.inf = c.flag]
CDesc(c) == [tables |-> CTables, fks |-> <<>>, dt |-> IF c.ty = <<>> THEN <<>> ELSE <<[t |-> "t", f |-> "f", ty |-> c.ty[1]]>>, dv |-> CDv(c),
             preds |-> <<>>, params |-> <<>>, tips |-> <<>>, inf |-> c.flag]
Ops(c, col) == <<OMkfac("F", c.fl, CDesc(c)), OMk("F", "A", <<Data("t", [i \in 1..Len(col) |-> <<IntV(i), col[i]>>])>>), OWrite("A", "s0", c.way), ORead("s0", "B"),
                 OWrite("B", "s1", c.way), ORead("s1", "C")>>
Fmt(c) == c.way[1]
Aff(c) == IF c.fl = "tic" /\ Fmt(c) \in {"sqlite", "sqltext"} /\ (Fmt(c) = "sqlite" \/ c.way[3]) /\ IsNum(Def0(Fac(c), "t", "f")) THEN "num" ELSE "none"
\* the columns: of the values of a sort, in order, at most CWide
Cols(s) == LET X == Vals4[s] IN {<<X[i]>> : i \in 1..Len(X)} \cup (IF CWide < 2 THEN {} ELSE {<<X[i], X[j]>> : i, j \in 1..Len(X)})
Enc(c, col) == {e \in [1..Len(col) -> CRaw] : \A i \in 1..Len(col) : Denotes(c.fl, Fmt(c), c.way[2], LX, Aff(c), WVal(Fac(c), "t", "f", col[i]), e[i])}
Dec(c, e) == IF c.fl = "tic"
             THEN TLCEval([i \in 1..Len(e) |-> DecTic(Fac(c), Fmt(c), LX, "t", "f", IF Fmt(c) = "sqltext" /\ ~c.way[3] THEN ReadAff(Fac(c), LX, "t", "f", e[i]) ELSE e[i], TRUE)])
             ELSE LET m == Infer(Fac(c), Fmt(c), c.way[2], LX, "t", "f", e)
                  IN TLCEval([i \in 1..Len(e) |-> PanAdjust(Fac(c), Fmt(c), LX, "t", "f", m[i])])
Rep(c, col) == IF c.fl = "tic" THEN \A i \in 1..Len(col) : RepTic(Fac(c), Fmt(c), LX, "t", "f", col[i], IntV(1))
               ELSE RepPanCol(Fac(c), Fmt(c), c.way[2], LX, "t", "f", col, [i \in 1..Len(col) |-> IntV(i)])
\* columns the replayed behaviours stay away from: text that is a date by accident, text that a frame cannot tell from null
Shy(c, v) == \/ c.ty # <<>> /\ c.ty[1].dt /\ IsStr(v) /\ v.s \in {"12"}
             \/ c.fl = "pan" /\ IsDate(v) /\ (c.ty = <<>> \/ ~c.ty[1].dt)
             \/ c.fl = "pan" /\ IsStr(v) /\ v.s \in {"", "inf"}
             \/ c.fl = "pan" /\ IsBool(v)
             \/ Fmt(c) = "xls" /\ c.ty # <<>> /\ c.ty[1].dt /\ IsNum(v)
             \/ IsBool(v) /\ c.ty = <<>>
Whole(c, s) == SelectSeq(Vals4[s], LAMBDA v : ~Shy(c, v))
CHash(c, s) == LET fact(b) == IF b THEN 1 ELSE 0
                   T == c.ty
               IN Mix(<<fact(c.fl = "tic"), IF T = <<>> THEN 7 ELSE fact(T[1].num) * 2 + fact(T[1].any) * 4 + fact(T[1].null) * 8 + fact(T[1].dt) * 16 + fact(T[1].imax) * 32 + Code(T[1].min) * 64,
                        IF c.def = <<>> THEN 2 ELSE Code(c.def[1]), Code(c.flag), Len(Fmt(c)) + 3 * Len(c.way[2]) + fact(c.way[3]), Len(Vals4[s])>>, 1, 1)
Init == /\ \E fl \in {"tic", "pan"}, ty \in Types, def \in Defs, flag \in Flags : \E w \in Ways(fl) : cfg = [fl |-> fl, ty |-> ty, def |-> def, flag |-> flag, way |-> w]
        /\ ~Ambiguous(Fac(cfg))
        /\ step = 0 /\ cells = <<>> /\ back = <<>> /\ again = <<>>
        /\ \A s \in {"num", "str", "day", "mix"} : (Chosen(CHash(cfg, s)) /\ Whole(cfg, s) # <<>>) => Emit(Ops(cfg, Whole(cfg, s)))
Trip == /\ step = 0
        /\ step' = 1
        /\ \E s \in {"num", "str", "day", "mix"} : \E col \in Cols(s) : \E e \in Enc(cfg, col) :
              /\ cells' = col
              /\ back' = Dec(cfg, e)
        /\ UNCHANGED <<cfg, again>>
Again == /\ step = 1 /\ Len(cells) = 1
         /\ \A i \in 1..Len(back) : ~IsU(back[i])
         /\ step' = 2
         /\ \E e \in Enc(cfg, back) : again' = Dec(cfg, e)
         /\ UNCHANGED <<cfg, cells, back>>
Spec == Init /\ [][Trip \/ Again]_vars

Faithful == (step = 1 /\ Rep(cfg, cells)) => back = cells
\* what was read is kept by another trip, where it is of a kind the format represents
Stable == (step = 2 /\ Rep(cfg, back)) => again = back
\* infinity survives wherever numbers do
Infinite == (step = 1 /\ FlagNum(Fac(cfg)) /\ cfg.ty # <<>> /\ cfg.ty[1].num /\ ~cfg.ty[1].any /\ \A i \in 1..Len(cells) : cells[i].k = "inf") => back = cells
Inv == Faithful /\ Stable /\ Infinite
=============================================================================
