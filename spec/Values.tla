------------------------------ MODULE Values ------------------------------
(* The value domain of ticdat cells and the semantics of declared data types.            *)
(* Every value is a record [k, n, s] so that all values are comparable in TLC:           *)
(*   null   [k |-> "null"]            None / NaN / NaT                                   *)
(*   num    n = value in quarters      (s # "" : not representable in quarters, n=floor)  *)
(*   inf    n = +1 / -1                                                                   *)
(*   bool   n = 0 / 1                                                                     *)
(*   str    s = text                                                                      *)
(*   date   s = ISO text                                                                  *)
(*   other  s = anything else (never equal to a legal value)                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

V(k, n, s)  == [k |-> k, n |-> n, s |-> s]
Null        == V("null", 0, "")
Num(q)      == V("num", q, "")        \* q in quarters
IntV(i)     == V("num", 4*i, "")
Str(x)      == V("str", 0, x)
BoolV(b)    == V("bool", IF b THEN 1 ELSE 0, "")
PInf        == V("inf", 1, "")
MInf        == V("inf", -1, "")
Zero        == Num(0)

IsNull(v)   == v.k = "null"
IsNum(v)    == v.k \in {"num", "inf"}
IsStr(v)    == v.k = "str"
IsBool(v)   == v.k = "bool"
IsDate(v)   == v.k = "date"

\* Strict order on numbers (infinities included)
NumLt(a, b) == CASE a.k = "inf" -> a.n < 0 /\ ~(b.k = "inf" /\ b.n < 0)
                 [] b.k = "inf" -> b.n > 0
                 [] OTHER       -> a.n < b.n \/ (a.n = b.n /\ a.s = "" /\ b.s # "")
NumLe(a, b) == a = b \/ NumLt(a, b)
IsIntegral(v) == v.k = "num" /\ v.s = "" /\ v.n % 4 = 0

\* Python equality as used by key look-ups and joins: booleans are the numbers 0 and 1
Norm(v)     == IF v.k = "bool" THEN Num(4 * v.n) ELSE v

(* Text that denotes a date; the harness only uses these and texts that no parser accepts. *)
DateText == {"2020-01-02", "2021-12-31", "Jan 5 2021", "2019-06-07 08:09:10", "2022/03/04"}

(* A declared data type: [num, imin, imax, min, max, int, any, strs, null, dt]           *)
ValidNum(ty, v) ==
    /\ ty.num
    /\ ~NumLt(v, ty.min)
    /\ ~NumLt(ty.max, v)
    /\ ty.imin \/ v # ty.min
    /\ ty.imax \/ v # ty.max
    /\ ty.int => (IsIntegral(v) \/ (v = ty.max /\ v = PInf /\ ty.imax))

Valid(ty, v) ==
    CASE IsNull(v) -> ty.null
      [] ty.dt     -> IsDate(v) \/ (IsStr(v) /\ v.s \in DateText)
      [] IsNum(v)  -> ValidNum(ty, v)
      [] IsStr(v)  -> ty.any \/ (\E i \in 1..Len(ty.strs) : ty.strs[i] = v.s)
      [] OTHER     -> FALSE

(* What a declaration is normalised to *)
NormType(ty) ==
    CASE ty.dt   -> [ty EXCEPT !.num = FALSE, !.imin = TRUE, !.imax = TRUE, !.min = Zero, !.max = PInf,
                               !.int = FALSE, !.any = FALSE, !.strs = <<>>]
      [] ty.num  -> IF ty.any THEN [ty EXCEPT !.strs = <<>>] ELSE ty
      [] OTHER   -> [ty EXCEPT !.strs = IF ty.any THEN <<>> ELSE @, !.imin = TRUE, !.imax = TRUE, !.min = Zero, !.max = PInf, !.int = FALSE]

LegalType(ty) == ty.dt \/ ~ty.num \/ (IsNum(ty.min) /\ IsNum(ty.max) /\ NumLe(ty.min, ty.max))
=============================================================================
