------------------------------ MODULE MCObjects ------------------------------
(* Life of data objects: edits of every kind, copies, freezing, removal and replacement of *)
(* failures, in every order.  A frozen object never changes, an operation changes no object *)
(* but its own, and a copy starts out equal.                                               *)
EXTENDS MCBase
CONSTANT Fl, Depth
VARIABLES O, ice, hist, pc
vars == <<O, ice, hist, pc>>

Ty == [num |-> TRUE, imin |-> TRUE, imax |-> TRUE, min |-> IntV(0), max |-> PInf, int |-> FALSE, any |-> FALSE, strs |-> <<>>, null |-> FALSE, dt |-> FALSE]
Tables == <<Std("t", <<"k">>, <<"a">>), Std("u", <<>>, <<"x", "y">>), Std("w", <<"k", "m">>, <<"b">>)>>
Fac == [NewFac(Tables) EXCEPT !.fks = <<FK("u", "t", <<<<"x", "k">>>>)>>, !.dt = <<[t |-> "t", f |-> "a", ty |-> NormType(Ty)]>>]
FF == [x \in {"F"} |-> Fac]
Desc1 == [Desc(Tables, Fac.fks) EXCEPT !.dt = <<[t |-> "t", f |-> "a", ty |-> Ty]>>]
D0 == <<Data("t", <<<<IntV(1), IntV(5)>>, <<IntV(2), IntV(-1)>>>>), Data("u", <<<<IntV(1), IntV(1)>>, <<IntV(9), IntV(2)>>>>),
        Data("w", <<<<IntV(1), Str("a"), IntV(0)>>>>)>>
D(b, c) == [kind |-> "dict", cells |-> IF b = "" THEN <<>> ELSE <<[f |-> b, v |-> c]>>, vals |-> <<>>, tup |-> FALSE]
Sc(v) == [kind |-> "scalar", cells |-> <<>>, vals |-> <<v>>, tup |-> FALSE]
Li(s) == [kind |-> "list", cells |-> <<>>, vals |-> s, tup |-> FALSE]
Ed(o, t, e, k, r, i, fld, v) == [op |-> "edit", o |-> o, t |-> t, e |-> e, k |-> k, kt |-> Len(k) > 1, r |-> r, i |-> i, fld |-> fld, v |-> v, ent |-> <<>>]
None == D("", Null)
Edits(o) == {Ed(o, "t", "set", <<IntV(2)>>, Sc(IntV(7)), 0, "", Null),
             Ed(o, "t", "set", <<IntV(3)>>, D("", Null), 0, "", Null),
             Ed(o, "t", "set", <<IntV(3), IntV(3)>>, D("", Null), 0, "", Null),
             Ed(o, "t", "set", <<IntV(1)>>, D("nope", IntV(1)), 0, "", Null),
             Ed(o, "t", "get", <<IntV(1)>>, None, 0, "", Null),
             Ed(o, "t", "get", <<IntV(4)>>, None, 0, "", Null),
             Ed(o, "t", "cell", <<IntV(1)>>, None, 0, "a", Str("z")),
             Ed(o, "t", "cell", <<IntV(5)>>, None, 0, "a", Str("z")),
             Ed(o, "t", "cell", <<IntV(1)>>, None, 0, "nope", Str("z")),
             Ed(o, "t", "del", <<IntV(1)>>, None, 0, "", Null),
             Ed(o, "t", "popdefault", <<IntV(8)>>, None, 0, "", Null),
             Ed(o, "t", "clear", <<IntV(1)>>, None, 0, "", Null),
             Ed(o, "t", "setdefault", <<IntV(6)>>, D("a", IntV(3)), 0, "", Null),
             Ed(o, "w", "set", <<IntV(1), Str("a")>>, Li(<<IntV(4)>>), 0, "", Null),
             Ed(o, "w", "get", <<IntV(2), Str("a")>>, None, 0, "", Null),
             Ed(o, "u", "append", <<>>, D("x", IntV(3)), 0, "", Null),
             Ed(o, "u", "append", <<>>, Li(<<IntV(2), IntV(2)>>), 0, "", Null),
             Ed(o, "u", "append", <<>>, Li(<<IntV(2)>>), 0, "", Null),
             Ed(o, "u", "insert", <<>>, D("y", IntV(3)), 0, "", Null),
             Ed(o, "u", "cell", <<>>, None, 0, "y", Str("z")),
             Ed(o, "u", "cell", <<>>, None, 0, "nope", Str("z")),
             Ed(o, "u", "set", <<>>, D("x", IntV(2)), 1, "", Null),
             Ed(o, "u", "get", <<>>, None, 0, "", Null),
             Ed(o, "u", "pop", <<>>, None, 1, "", Null)}
PanEdits(o) == {[op |-> "panedit", o |-> o, t |-> "t", e |-> "iloc", i |-> 0, fld |-> "a", v |-> IntV(9)],
                [op |-> "panedit", o |-> o, t |-> "t", e |-> "drop", i |-> 0, fld |-> "a", v |-> IntV(9)],
                [op |-> "panedit", o |-> o, t |-> "u", e |-> "iloc", i |-> 1, fld |-> "x", v |-> IntV(1)],
                [op |-> "panedit", o |-> o, t |-> "u", e |-> "drop", i |-> 1, fld |-> "x", v |-> IntV(1)],
                [op |-> "panedit", o |-> o, t |-> "w", e |-> "iloc", i |-> 0, fld |-> "m", v |-> Str("b")]}
PanPost(e, rows) == IF e.e = "iloc" THEN [rows EXCEPT ![e.i + 1][Idx(Fac, e.t, e.fld)] = e.v] ELSE Drop(rows, {e.i + 1})
OCopy(o, o2, fr) == [op |-> "copy", o |-> o, o2 |-> o2, freeze |-> fr]
OFreeze(o) == [op |-> "freeze", o |-> o]
Obj(tabs, fr) == [fac |-> "F", fl |-> Fl, frozen |-> fr, tabs |-> tabs]
Os == DOMAIN O
Say(op) == hist' = Append(hist, op)
To(o, tabs) == O' = [O EXCEPT ![o].tabs = tabs] /\ UNCHANGED ice
Edit(o) == \E e \in (IF Fl = "tic" THEN Edits(o) ELSE PanEdits(o)) :
              /\ Fl = "pan" => Len(Rows(O[o].tabs, e.t)) > e.i
              /\ To(o, IF Fl = "tic" THEN EditPost(FF, O, e) ELSE SetRows(O[o].tabs, e.t, PanPost(e, Rows(O[o].tabs, e.t))))
              /\ Say(e)
Freeze(o) == /\ Fl = "tic"
             /\ O' = [O EXCEPT ![o].frozen = TRUE]
             /\ ice' = [x \in DOMAIN ice \cup {o} |-> O[o].tabs]
             /\ Say(OFreeze(o))
Copy(o) == \E o2 \in {"B", "C"} \ Os : \E fr \in BOOLEAN :
              /\ o2 = "C" => "B" \in Os
              /\ fr => Fl = "tic"
              /\ O' = [x \in Os \cup {o2} |-> IF x = o2 THEN Obj(O[o].tabs, fr) ELSE O[x]]
              /\ ice' = IF fr THEN [x \in DOMAIN ice \cup {o2} |-> IF x = o2 THEN O[o].tabs ELSE ice[x]] ELSE ice
              /\ Say(OCopy(o, o2, fr))
Remove(o) == LET e == ORemoveFK(o, "yes") IN
              /\ To(o, IF O[o].frozen THEN O[o].tabs ELSE RemoveAll(Fac, O[o].tabs))
              /\ Say(e)
Replace(o) == LET e == OReplace(o, <<>>) IN
              /\ To(o, IF O[o].frozen THEN O[o].tabs ELSE ReplacePost(FF, O, e))
              /\ Say(e)
Init == /\ O = [x \in {"A"} |-> Obj(D0, FALSE)]
        /\ ice = [x \in {} |-> D0]
        /\ pc = 0
        /\ hist = <<OMkfac("F", Fl, Desc1), OMk("F", "A", D0)>>
Finish(h) == h \o <<OFindFK("A", 0), OFindDT("A", 0)>> \o (IF "B" \in Os THEN <<OFindFK("B", 0), OCopy("B", "Z", FALSE)>> ELSE <<>>)
OpCode(e) == Mix(<<Len(e.op), IF e.op = "edit" THEN Len(e.e) * 5 + e.i + Len(e.k) ELSE IF e.op = "panedit" THEN e.i + Len(e.t) ELSE 9,
                   IF e.o = "A" THEN 1 ELSE IF e.o = "B" THEN 2 ELSE 3, IF e.op = "edit" THEN HashRow(e.k) + Code(e.v) + Len(e.fld) ELSE 2>>, 1, 1)
OHash(h) == Mix([i \in 1..(Len(h) - 2) |-> OpCode(h[i + 2])], 1, 1)
Next == /\ pc < Depth
        /\ pc' = pc + 1
        /\ \E o \in Os : IF pc = 0 THEN Edit(o) \/ Copy(o) \/ Freeze(o) \/ Remove(o) \/ Replace(o)
                         ELSE IF pc < Depth - 1 THEN Copy(o) \/ Freeze(o) \/ Edit(o) \/ Remove(o) ELSE Edit(o) \/ Remove(o) \/ Replace(o)
        /\ pc' = Depth => (Chosen(OHash(hist')) => Emit(Finish(hist')))
Spec == Init /\ [][Next]_vars
Frozen == \A o \in DOMAIN ice : O[o].tabs = ice[o] /\ O[o].frozen
Keyed1 == Fl = "tic" => \A o \in Os : \A t \in {"t", "w"} : DupIdx(Fac, O[o].tabs, t, "none") = {}
Inv == Frozen /\ Keyed1
=============================================================================
