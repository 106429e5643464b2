------------------------------ MODULE MznSolve ------------------------------
(* The solving service as a state machine: what a run of the toolchain on a model may output.
   A run emits solutions and ends with a status.  All-solutions runs of satisfaction problems emit
   every solution exactly once and then "complete"; optimisation runs emit a strictly improving
   sequence and claim optimality only at an optimum; "unsat" is claimed only without solutions. *)
EXTENDS MznSem

VARIABLES model,   \* the model being run
          sols,    \* its declared solution set (assignments to the output variables)
          todo,    \* solutions not yet emitted
          best,    \* objective of the last emitted solution: <<>> or <<v>>
          status   \* "run" | "complete" | "unsat" | "stopped"
vars == <<model, sols, todo, best, status>>

\* ---------------------------------------------------------------- solution sets
Dec(ty, v) == IF ty = "s" THEN ToSet(v) ELSE IF ty = "a" THEN Arr(v) ELSE v
RECURSIVE Asg(_, _)
Asg(vs, k) == IF k = 0 THEN {<<>>}
              ELSE {(vs[k].n :> Dec(vs[k].ty, vs[k].d[i])) @@ a : i \in DOMAIN vs[k].d, a \in Asg(vs, k - 1)}

\* items are processed in order; each extends the environment or constrains it.  <<>> = violated
RECURSIVE Items(_, _, _, _)
Items(m, k, F, env) ==
  IF k > Len(m.items) THEN <<env>>
  ELSE LET it == m.items[k]
           r == Eval(it.e, F, env)
       IN IF it.n = "" THEN (IF r = <<TRUE>> THEN Items(m, k + 1, F, env) ELSE <<>>)
          ELSE IF r = <<>> THEN <<>>
          ELSE IF "d" \in DOMAIN it /\ ~(r[1] \in {Dec(it.ty, it.d[i]) : i \in DOMAIN it.d}) THEN <<>>
          ELSE Items(m, k + 1, F, (it.n :> r[1]) @@ env)

Proj(m, env) == [n \in ToSet(m.out) |-> env[n]]
\* TLC: an empty JSON array/object is <<>>; parameters and hidden variables are ordinary variables
Worlds(m) == LET ok == {Items(m, 1, m.funs, a) : a \in Asg(m.vars, Len(m.vars))}
             IN {w[1] : w \in {x \in ok : x # <<>>}}
Sols(m) == {Proj(m, w) : w \in Worlds(m)}
IsOpt(m) == m.goal # "sat"
\* objective values reachable for a given output assignment
ObjOf(m, w) == Eval(m.obj, m.funs, w)[1]
Better(m, a, b) == IF m.goal = "min" THEN a < b ELSE a > b

TypeOK == /\ todo \subseteq sols
          /\ status \in {"run", "complete", "unsat", "stopped"}
          /\ (best # <<>>) => IsOpt(model)

Load(m) == /\ model' = m
           /\ sols' = Sols(m)
           /\ todo' = Sols(m)
           /\ best' = <<>>
           /\ status' = "run"

\* a solution of an all-solutions run: never an assignment that is not a solution, never twice
Emit(s) == /\ status = "run" /\ ~IsOpt(model)
           /\ s \in todo
           /\ todo' = todo \ {s}
           /\ UNCHANGED <<model, sols, best, status>>

\* a solution of an optimisation run: a genuine solution, strictly better than the one before
EmitImproving(s) ==
  /\ status = "run" /\ IsOpt(model)
  /\ s \in sols
  /\ \E w \in Worlds(model) :
        /\ Proj(model, w) = s
        /\ LET o == ObjOf(model, w)
           IN /\ (IF best = <<>> THEN TRUE ELSE Better(model, o, best[1]))
              /\ best' = <<o>>
  /\ todo' = todo \ {s}
  /\ UNCHANGED <<model, sols, status>>

Complete == /\ status = "run"
            /\ IF IsOpt(model)
               THEN IF best = <<>> THEN FALSE ELSE ~\E w \in Worlds(model) : Better(model, ObjOf(model, w), best[1])
               ELSE todo = {} /\ sols # {}
            /\ status' = "complete"
            /\ UNCHANGED <<model, sols, todo, best>>

\* the run stops after the requested number of solutions (or one, without -a), with no completeness claim
Stop == /\ status = "run"
        /\ IF model.limit = 0 THEN FALSE
           ELSE Cardinality(sols \ todo) = MinI(model.limit, Cardinality(sols)) /\ sols # {}
        /\ status' = "stopped"
        /\ UNCHANGED <<model, sols, todo, best>>

Unsat == /\ status = "run" /\ sols = {}
         /\ status' = "unsat"
         /\ UNCHANGED <<model, sols, todo, best>>

\* ---------------------------------------------------------------- properties of the design
CompleteIsComplete == (status = "complete" /\ ~IsOpt(model)) => todo = {}
UnsatMeansNone == status = "unsat" => (sols = {} /\ todo = {} /\ best = <<>>)
=============================================================================
