-------------------------------- MODULE Mip --------------------------------
(* The optimisation wrapper ticdat.Model: what a stated program means, and a total checker *)
(* for traces recorded from the wrapper with every solver that is present.                 *)
(* Bounds and right hand sides are Values (quarters); solver results are integers in units *)
(* of 1e-5.  Programs are small enough for their optimum to be found by enumeration.       *)
EXTENDS Values, Json, IOUtils, SequencesExt, FiniteSetsExt

Traces == ndJsonDeserialize(IOEnv.VP_TRACES)

VARIABLES tr, l,
          M,    \* models: what was stated so far
          ended \* a violation was found in this trace
vars == <<tr, l, M, ended>>
Ev == Traces[tr].ev[l + 1]

Solvers == {"gurobi", "cplex", "xpress"}
Types == {"continuous", "binary", "integer"}
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
If(c, S) == IF c THEN S ELSE {}
Bad(s) == {s[i][1] : i \in {j \in 1..Len(s) : ~s[j][2]}}
HasVar(m, v) == \E i \in 1..Len(m.vars) : m.vars[i].v = v
VarOf(m, v) == m.vars[CHOOSE i \in 1..Len(m.vars) : m.vars[i].v = v]

\* ---------------------------------------------------------------- what may be stated
VarRefused(e) ==
    \/ e.type \notin Types
    \/ ~IsNum(e.lb) \/ ~IsNum(e.ub)
    \/ NumLt(e.ub, e.lb) \/ e.lb = PInf \/ e.ub = MInf
    \/ e.type = "binary" /\ (e.lb \notin {Zero, IntV(1)} \/ (e.ub # PInf /\ e.ub \notin {Zero, IntV(1)}) \/ NumLt(IntV(1), e.lb))
AddVar(m, e) == [m EXCEPT !.vars = Append(@, [v |-> e.v, lb |-> e.lb, type |-> e.type,
                                              ub |-> IF e.type = "binary" /\ e.ub = PInf THEN IntV(1) ELSE e.ub])]
Row(e) == [terms |-> e.terms, quad |-> e.quad, sense |-> e.sense, rhs |-> e.rhs.n]
KnownParams == {"MIP_Gap", "time_limit"}
ParamRefused(m, e) == e.k \notin KnownParams \/ (e.k = "time_limit" /\ m.solver = "cplex")

\* ---------------------------------------------------------------- what the program means
\* candidate values of a variable, in quarters: whole numbers, or all quarters for continuous variables.  The programs
\* judged here have at most one continuous variable per row, with small coefficients, so that an optimum lies on this grid
Caps(m, v) == LET x == VarOf(m, v)
                  single == {i \in 1..Len(m.cons) : LET c == m.cons[i] IN Len(c.terms) = 1 /\ c.quad = <<>> /\ c.terms[1][1] = v /\ c.terms[1][2] = 1}
              IN [lo |-> Max((IF x.lb.k = "num" THEN {x.lb.n} ELSE {}) \cup {m.cons[i].rhs : i \in {j \in single : m.cons[j].sense # "le"}} \cup {-4000}),
                  hi |-> Min((IF x.ub.k = "num" THEN {x.ub.n} ELSE {}) \cup {m.cons[i].rhs : i \in {j \in single : m.cons[j].sense # "ge"}} \cup {4000})]
Cands(m, v) == LET c == Caps(m, v)
               IN IF VarOf(m, v).type = "continuous" THEN c.lo..c.hi ELSE {q \in c.lo..c.hi : q % 4 = 0}
Names(m) == {m.vars[i].v : i \in 1..Len(m.vars)}
Lhs(terms, p) == Sum([i \in 1..Len(terms) |-> terms[i][2] * p[terms[i][1]]])
\* squares, in quarters, only of whole numbers
Squares(quad, p) == Sum([i \in 1..Len(quad) |-> quad[i][2] * ((p[quad[i][1]] * p[quad[i][1]]) \div 4)])
Holds(row, p) == LET s == Lhs(row.terms, p) + Squares(row.quad, p) IN CASE row.sense = "le" -> s <= row.rhs [] row.sense = "ge" -> s >= row.rhs [] OTHER -> s = row.rhs
RowOK(m, p) == /\ \A i \in 1..Len(m.cons) : Holds(m.cons[i], p)
               /\ \A i \in 1..Len(m.inds) : (p[m.inds[i].b] = (IF m.inds[i].on THEN 4 ELSE 0)) => Holds(m.inds[i].row, p)
\* the objective in sixteenths
Obj(m, p) == 4 * Lhs(m.obj.terms, p) + 16 * m.obj.const + Sum([i \in 1..Len(m.obj.quad) |-> m.obj.quad[i][2] * p[m.obj.quad[i][1]] * p[m.obj.quad[i][1]]])
RECURSIVE Extend(_, _, _)
Extend(m, i, S) == IF i > Len(m.vars) THEN S
                   ELSE Extend(m, i + 1, {(m.vars[i].v :> q) @@ p : q \in Cands(m, m.vars[i].v), p \in S})
Feasible(m) == TLCEval({p \in Extend(m, 1, {<<>>}) : RowOK(m, p)})
\* a variable nothing restrains and that the objective pulls to infinity
Pull(m, v) == LET c == Sum([i \in 1..Len(m.obj.terms) |-> IF m.obj.terms[i][1] = v THEN m.obj.terms[i][2] ELSE 0])
              IN IF m.obj.sense = "maximize" THEN c ELSE 0 - c
InRow(row, v) == (\E i \in 1..Len(row.terms) : row.terms[i][1] = v) \/ (\E i \in 1..Len(row.quad) : row.quad[i][1] = v)
Loose(m, v) == /\ \A i \in 1..Len(m.cons) : ~InRow(m.cons[i], v)
               /\ \A i \in 1..Len(m.inds) : ~InRow(m.inds[i].row, v) /\ m.inds[i].b # v
               /\ \A i \in 1..Len(m.obj.quad) : m.obj.quad[i][1] # v
               /\ (Pull(m, v) > 0 /\ VarOf(m, v).ub = PInf) \/ (Pull(m, v) < 0 /\ VarOf(m, v).lb = MInf)
Unbounded(m) == \E v \in Names(m) : Loose(m, v)

\* ---------------------------------------------------------------- judging a solver's answer; values in units of 1e-5
Tol == 200
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Val(e, v) == e.ret.vals[CHOOSE i \in 1..Len(e.ret.vals) : e.ret.vals[i][1] = v][2]
Whole(x) == Abs(x) % 100000 <= Tol \/ Abs(x) % 100000 >= 100000 - Tol
Round(x) == IF x >= 0 THEN (x + 50000) \div 100000 ELSE 0 - ((50000 - x) \div 100000)
HoldsT(row, e) == LET s == Sum([i \in 1..Len(row.terms) |-> row.terms[i][2] * Val(e, row.terms[i][1])])
                           + 100000 * Sum([i \in 1..Len(row.quad) |-> row.quad[i][2] * Round(Val(e, row.quad[i][1])) * Round(Val(e, row.quad[i][1]))])
                      r == row.rhs * 25000
                  IN CASE row.sense = "le" -> s <= r + Tol [] row.sense = "ge" -> s >= r - Tol [] OTHER -> Abs(s - r) <= Tol
Fits(m, e) ==
    /\ \A v \in Names(m) : \E i \in 1..Len(e.ret.vals) : e.ret.vals[i][1] = v
    /\ \A i \in 1..Len(m.vars) : LET x == m.vars[i]
                                     q == Val(e, x.v)
                                 IN /\ x.lb.k = "num" => q >= x.lb.n * 25000 - Tol
                                    /\ x.ub.k = "num" => q <= x.ub.n * 25000 + Tol
                                    /\ x.type # "continuous" => Whole(q)
    /\ \A i \in 1..Len(m.cons) : HoldsT(m.cons[i], e)
    /\ \A i \in 1..Len(m.inds) : Round(Val(e, m.inds[i].b)) = (IF m.inds[i].on THEN 1 ELSE 0) => HoldsT(m.inds[i].row, e)
\* squares only of whole numbers
ObjT(m, e) == Sum([i \in 1..Len(m.obj.terms) |-> m.obj.terms[i][2] * Val(e, m.obj.terms[i][1])]) + 100000 * m.obj.const
              + 100000 * Sum([i \in 1..Len(m.obj.quad) |-> m.obj.quad[i][2] * Round(Val(e, m.obj.quad[i][1])) * Round(Val(e, m.obj.quad[i][1]))])
Near(x, y) == Abs(x - y) <= Tol + Abs(y) \div 2000
IsMip(m) == \E i \in 1..Len(m.vars) : m.vars[i].type # "continuous"
\* the bound is never worse than any solution; the relative distance of the two is at most the gap that was set
Beyond(m, x, y) == IF m.obj.sense = "maximize" THEN x >= y - Tol ELSE x <= y + Tol
Share(x, gap) == Tol + ((x \div 100 + 1) * (gap \div 100 + 1)) \div 10
OptClauses(m, e) ==
    LET P == Feasible(m)
        vals == TLCEval({Obj(m, p) : p \in P})
        best == (IF m.obj.sense = "maximize" THEN Max(vals) ELSE Min(vals)) * 6250
    IN IF ~e.ret.ok THEN {"mip.raise"}
       ELSE IF Unbounded(m) THEN If(e.ret.yes, {"mip.unbounded"})
       ELSE IF P = {} THEN If(e.ret.yes, {"mip.infeasible"})
       ELSE IF ~e.ret.yes THEN {"mip.solved"}
       ELSE IF ~Fits(m, e) THEN {"mip.assignment"}
       ELSE Bad(<< <<"mip.optimal", m.gap > 10 \/ Near(ObjT(m, e), best)>>,
                   <<"mip.results", IsMip(m) => /\ Near(e.ret.objv, ObjT(m, e))
                                                /\ m.gap > 10 \/ Near(e.ret.bound, best)>>,
                   <<"mip.gap", (IsMip(m) /\ m.gap > 10) => /\ Beyond(m, e.ret.bound, best)
                                                             /\ Beyond(m, best, e.ret.objv)
                                                             /\ Abs(e.ret.bound - e.ret.objv) <= Share(Max({Abs(e.ret.bound), Abs(e.ret.objv)}), m.gap)>> >>)

Fresh(e) == [solver |-> e.solver, vars |-> <<>>, cons |-> <<>>, inds |-> <<>>, gap |-> e.ret.params[1], limit |-> e.ret.params[2],
             obj |-> [terms |-> <<>>, quad |-> <<>>, const |-> 0, sense |-> "minimize"]]
\* parameters of the core model after the call: as before, but for the one that was set
ParamsAre(e, g, t) == e.ret.params[1] = g /\ e.ret.params[2] = t
Refusal(name, refused, e) == IF refused THEN Bad(<< <<name \o ".refuse", ~e.ret.ok>> >>) ELSE Bad(<< <<name \o ".raise", e.ret.ok>> >>)
Clauses(e) ==
    CASE e.op = "newmodel" -> Refusal("mip.model", e.solver \notin Solvers, e) \cup
                              If(e.ret.ok, Bad(<< <<"mip.model.fresh", e.ret.core /\ e.ret.type = e.solver>> >>))
      [] e.op = "hang" -> {"hang"}
      [] e.op = "addvar" -> Refusal("mip.var", VarRefused(e), e)
      [] e.op = "addcon" -> Bad(<< <<"mip.con.raise", e.ret.ok>> >>)
      [] e.op = "addind" -> Refusal("mip.ind", M[e.m].solver = "cplex", e)
      [] e.op = "obj" -> Refusal("mip.obj", e.sense \notin {"maximize", "minimize"}, e)
      [] e.op = "param" -> LET m == M[e.m] IN Refusal("mip.param", ParamRefused(m, e), e) \cup
                           Bad(<< <<"mip.param.set", CASE ~e.ret.ok -> ParamsAre(e, m.gap, m.limit)
                                                       [] e.k = "MIP_Gap" -> ParamsAre(e, e.val, m.limit)
                                                       [] OTHER -> ParamsAre(e, m.gap, e.val)>> >>)
      [] e.op = "opt" -> OptClauses(M[e.m], e)
Post(e) ==
    IF ~e.ret.ok \/ e.op = "hang" THEN M
    ELSE IF e.op = "newmodel" THEN TLCEval((e.m :> Fresh(e)) @@ M)
    ELSE LET m == M[e.m]
             n == CASE e.op = "addvar" -> AddVar(m, e)
                    [] e.op = "addcon" -> [m EXCEPT !.cons = Append(@, Row(e))]
                    [] e.op = "addind" -> [m EXCEPT !.inds = Append(@, [b |-> e.b, on |-> e.on, row |-> Row(e)])]
                    [] e.op = "obj" -> [m EXCEPT !.obj = [terms |-> e.terms, quad |-> e.quad, const |-> e.const, sense |-> e.sense]]
                    [] e.op = "param" -> [m EXCEPT !.gap = e.ret.params[1], !.limit = e.ret.params[2]]
                    [] OTHER -> m
         IN TLCEval([M EXCEPT ![e.m] = n])

Init == tr \in 1..Len(Traces) /\ l = 0 /\ M = <<>> /\ ended = FALSE
Next == /\ l < Len(Traces[tr].ev)
        /\ l' = l + 1
        /\ tr' = tr
        /\ IF ended THEN UNCHANGED <<M, ended>>      \* what follows a violation is not judged
           ELSE LET bad == Clauses(Ev)
                IN IF bad = {} THEN M' = Post(Ev) /\ ended' = FALSE
                   ELSE /\ PrintT("VPM " \o ToJson([tr |-> tr, l |-> l + 1, op |-> Ev.op, bad |-> bad]))
                        /\ ended' = TRUE /\ M' = M
Spec == Init /\ [][Next]_vars
=============================================================================
