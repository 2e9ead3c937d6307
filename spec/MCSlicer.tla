------------------------------- MODULE MCSlicer -------------------------------
(* Slices with an index per pattern of stars that is built at first use and may be cleared:  *)
(* after every history a slice is what filtering gives, refining a pattern gives a part of    *)
(* its slice, and the slices for the values of one position divide what is sliced.            *)
EXTENDS MCBase
CONSTANT Depth
VARIABLES rows, cache, hist, pc, last
vars == <<rows, cache, hist, pc, last>>
V3 == {IntV(1), IntV(2), Str("a")}
Tuples == {<<x, y>> : x \in {IntV(1), Str("a")}, y \in V3}
Lists == {SeqOf(S) : S \in {X \in SUBSET Tuples : Cardinality(X) <= 3}} \cup {<<x, x>> : x \in Tuples} \cup {<<x, y, x>> : x, y \in {<<IntV(1), IntV(1)>>, <<Str("a"), IntV(2)>>}}
Pats == {<<x, y>> : x \in {Star, IntV(1), Str("a"), Num(2)}, y \in {Star, IntV(1), IntV(2), Str("a")}}
Mask(p) == {j \in 1..2 : p[j] # Star}
\* the index for a mask: from key to the rows, in order
Index(m) == [k \in {[j \in m |-> Norm(rows[i][j])] : i \in 1..Len(rows)} |-> SelectSeq(rows, LAMBDA r : [j \in m |-> Norm(r[j])] = k)]
Ask(p) == LET m == Mask(p)
              c == IF m \in DOMAIN cache THEN cache ELSE [x \in DOMAIN cache \cup {m} |-> IF x = m THEN Index(m) ELSE cache[x]]
              k == [j \in m |-> Norm(p[j])]
          IN /\ cache' = c
             /\ last' = [pat |-> p, got |-> IF k \in DOMAIN c[m] THEN c[m][k] ELSE <<>>]
             /\ hist' = Append(hist, [op |-> "slice", id |-> "L", pat |-> p, spoil |-> pc = 1])
Clear == /\ cache' = [x \in {} |-> 0]
         /\ hist' = Append(hist, [op |-> "sclear", id |-> "L", how |-> IF pc = 1 THEN "clear" ELSE "gout"])
         /\ UNCHANGED last
Init == /\ rows \in Lists
        /\ cache = [x \in {} |-> 0]
        /\ pc = 0
        /\ last = [pat |-> <<Star, Star>>, got |-> rows]
        /\ \E o \in BOOLEAN : hist = <<[op |-> "slicer", id |-> "L", rows |-> rows, how |-> IF o THEN "tuples" ELSE "lists", opt |-> o]>>
HCode(h) == Mix([i \in 1..(Len(h) - 1) |-> IF h[i + 1].op = "slice" THEN HashRow(h[i + 1].pat) ELSE 5] \o <<HashRows(rows), IF h[1].opt THEN 1 ELSE 2>>, 1, 1)
Next == /\ pc < Depth
        /\ pc' = pc + 1
        /\ UNCHANGED rows
        /\ (\E p \in Pats : Ask(p)) \/ (pc > 0 /\ Clear)
        /\ pc' = Depth => (Chosen(HCode(hist')) => Emit(hist'))
Spec == Init /\ [][Next]_vars
Exact == last.got = Matching(rows, last.pat)
Refined == \A p \in Pats : (\A j \in 1..2 : p[j] = last.pat[j] \/ last.pat[j] = Star) =>
              \A r \in Range(Matching(rows, p)) : InSeq(last.got, r)
Divided == \A j \in Mask(last.pat) : LET wide == Matching(rows, [last.pat EXCEPT ![j] = Star])
              IN Len(wide) = Len(last.got) + Cardinality({i \in 1..Len(wide) : Norm(wide[i][j]) # Norm(last.pat[j])})
Inv == Exact /\ Refined /\ Divided
=============================================================================
