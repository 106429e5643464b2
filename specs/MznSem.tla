------------------------------- MODULE MznSem -------------------------------
(* Denotational part of the MiniZinc specification: the value of an expression under an
   assignment, with the relational treatment of undefinedness (docs/en/spec.rst, Partiality).
   Expressions arrive as JSON trees.  A value is <<v>>; <<>> is "undefined".
   Integers are TLC integers, sets are TLA+ sets, arrays are [ix |-> <<<<lo,hi>>,...>>, el |-> <<...>>]
   in row-major order, options are <<>> (absent) or <<v>> (inside the outer <<.>>), tuples/records
   are sequences/records, enum values are their ordinal. *)
EXTENDS MznBase, MznGlobals

\* ---------------------------------------------------------------- built-in operations on defined values
\* v : sequence of argument values.  Result <<r>> or <<>> (undefined).
Builtin(o, v) ==
  CASE o = "+" -> <<v[1] + v[2]>>
    [] o = "-" -> <<v[1] - v[2]>>
    [] o = "*" -> <<v[1] * v[2]>>
    [] o = "neg" -> <<-v[1]>>
    [] o = "div" -> IF v[2] = 0 THEN <<>> ELSE <<TDiv(v[1], v[2])>>
    [] o = "mod" -> IF v[2] = 0 THEN <<>> ELSE <<TMod(v[1], v[2])>>
    [] o = "pow" -> Pow(v[1], v[2])
    [] o = "abs" -> <<Abs(v[1])>>
    [] o = "min2" -> <<MinI(v[1], v[2])>>
    [] o = "max2" -> <<MaxI(v[1], v[2])>>
    [] o = "=" -> <<v[1] = v[2]>>
    [] o = "!=" -> <<v[1] # v[2]>>
    [] o = "<" -> <<v[1] < v[2]>>
    [] o = "<=" -> <<v[1] <= v[2]>>
    [] o = ">" -> <<v[1] > v[2]>>
    [] o = ">=" -> <<v[1] >= v[2]>>
    [] o = "b<" -> <<~v[1] /\ v[2]>>
    [] o = "b<=" -> <<v[1] => v[2]>>
    [] o = "b>" -> <<v[1] /\ ~v[2]>>
    [] o = "b>=" -> <<v[2] => v[1]>>
    [] o = "and" -> <<v[1] /\ v[2]>>
    [] o = "or" -> <<v[1] \/ v[2]>>
    [] o = "not" -> <<~v[1]>>
    [] o = "->" -> <<v[1] => v[2]>>
    [] o = "<-" -> <<v[2] => v[1]>>
    [] o = "<->" -> <<v[1] = v[2]>>
    [] o = "xor" -> <<v[1] # v[2]>>
    [] o = "bool2int" -> <<B2I(v[1])>>
    \* ------------------------------------------------------------ aggregates over arrays
    [] o = "sum" -> <<SeqSum(v[1].el)>>
    [] o = "product" -> <<SeqProd(v[1].el)>>
    [] o = "min" -> IF v[1].el = <<>> THEN <<>> ELSE <<SeqMin(v[1].el)>>
    [] o = "max" -> IF v[1].el = <<>> THEN <<>> ELSE <<SeqMax(v[1].el)>>
    [] o = "forall" -> <<\A i \in DOMAIN v[1].el : v[1].el[i]>>
    [] o = "exists" -> <<\E i \in DOMAIN v[1].el : v[1].el[i]>>
    [] o = "xorall" -> <<Occ(v[1].el, TRUE) % 2 = 1>>
    [] o = "iffall" -> <<Occ(v[1].el, TRUE) % 2 = 0>>
    [] o = "clause" -> <<(\E i \in DOMAIN v[1].el : v[1].el[i]) \/ (\E i \in DOMAIN v[2].el : ~v[2].el[i])>>
    [] o = "length" -> <<Len(v[1].el)>>
    [] o = "++" -> <<Arr(v[1].el \o v[2].el)>>
    [] o = "indexset" -> <<(v[1].ix[1][1])..(v[1].ix[1][2])>>
    [] o = "indexset1of2" -> <<(v[1].ix[1][1])..(v[1].ix[1][2])>>
    [] o = "indexset2of2" -> <<(v[1].ix[2][1])..(v[1].ix[2][2])>>
    [] o = "array1d" -> <<Arr(v[1].el)>>
    [] o = "reverse" -> <<[ix |-> v[1].ix, el |-> Reverse(v[1].el)]>>
    [] o = "elems" -> <<v[1].el>>
    [] o = "ixs" -> <<(v[1].ix[v[2]][1])..(v[1].ix[v[2]][2])>>
    [] o = "aeq" -> <<v[1].el = v[2].el /\ v[1].ix = v[2].ix>>
    [] o = "alt" -> <<LexCmp(v[1].el, v[2].el) < 0>>
    [] o = "ale" -> <<LexCmp(v[1].el, v[2].el) <= 0>>
    \* ------------------------------------------------------------ sets
    [] o = "in" -> <<v[1] \in v[2]>>
    [] o = "subset" -> <<v[1] \subseteq v[2]>>
    [] o = "superset" -> <<v[2] \subseteq v[1]>>
    [] o = "union" -> <<v[1] \cup v[2]>>
    [] o = "intersect" -> <<v[1] \cap v[2]>>
    [] o = "diff" -> <<v[1] \ v[2]>>
    [] o = "symdiff" -> <<(v[1] \ v[2]) \cup (v[2] \ v[1])>>
    [] o = "card" -> <<Cardinality(v[1])>>
    [] o = "smin" -> IF v[1] = {} THEN <<>> ELSE <<SetMinI(v[1])>>
    [] o = "smax" -> IF v[1] = {} THEN <<>> ELSE <<SetMaxI(v[1])>>
    [] o = ".." -> <<v[1]..v[2]>>
    [] o = "s<" -> <<SetCmp(v[1], v[2]) < 0>>
    [] o = "s<=" -> <<SetCmp(v[1], v[2]) <= 0>>
    [] o = "s>" -> <<SetCmp(v[1], v[2]) > 0>>
    [] o = "s>=" -> <<SetCmp(v[1], v[2]) >= 0>>
    [] o = "array_union" -> <<UNION {v[1].el[i] : i \in DOMAIN v[1].el}>>
    [] o = "array_intersect" -> IF v[1].el = <<>> THEN <<>>
                                ELSE <<{x \in v[1].el[1] : \A i \in DOMAIN v[1].el : x \in v[1].el[i]}>>
    \* ------------------------------------------------------------ option types
    [] o = "some" -> <<<<v[1]>>>>                       \* coercion T -> opt T
    [] o = "occurs" -> <<v[1] # <<>>>>
    [] o = "absent" -> <<v[1] = <<>>>>
    [] o = "deopt" -> v[1]                              \* undefined when absent
    [] o = "oeq" -> <<v[1] = v[2]>>                     \* absent equals absent only
    [] o = "one" -> <<v[1] # v[2]>>
    \* order comparisons and weak equality are true as soon as one side is absent
    [] o = "olt" -> <<v[1] = <<>> \/ v[2] = <<>> \/ v[1][1] < v[2][1]>>
    [] o = "ole" -> <<v[1] = <<>> \/ v[2] = <<>> \/ v[1][1] <= v[2][1]>>
    [] o = "ogt" -> <<v[1] = <<>> \/ v[2] = <<>> \/ v[1][1] > v[2][1]>>
    [] o = "oge" -> <<v[1] = <<>> \/ v[2] = <<>> \/ v[1][1] >= v[2][1]>>
    [] o = "~=" -> <<v[1] = <<>> \/ v[2] = <<>> \/ v[1] = v[2]>>
    [] o = "~!=" -> <<v[1] = <<>> \/ v[2] = <<>> \/ v[1] # v[2]>>
    \* weak arithmetic: absent if an argument is absent
    [] o = "~+" -> <<IF v[1] = <<>> \/ v[2] = <<>> THEN <<>> ELSE <<v[1][1] + v[2][1]>>>>
    [] o = "~-" -> <<IF v[1] = <<>> \/ v[2] = <<>> THEN <<>> ELSE <<v[1][1] - v[2][1]>>>>
    [] o = "~*" -> <<IF v[1] = <<>> \/ v[2] = <<>> THEN <<>> ELSE <<v[1][1] * v[2][1]>>>>
    [] o = "osum" -> <<SeqSum([i \in DOMAIN v[1].el |-> IF v[1].el[i] = <<>> THEN 0 ELSE v[1].el[i][1]])>>
    [] o = "oproduct" -> <<SeqProd([i \in DOMAIN v[1].el |-> IF v[1].el[i] = <<>> THEN 1 ELSE v[1].el[i][1]])>>
    [] o = "oforall" -> <<\A i \in DOMAIN v[1].el : v[1].el[i] = <<>> \/ v[1].el[i][1]>>
    [] o = "oexists" -> <<\E i \in DOMAIN v[1].el : v[1].el[i] # <<>> /\ v[1].el[i][1]>>
    \* ------------------------------------------------------------ tuples and records
    [] o = "teq" -> <<v[1] = v[2]>>
    [] OTHER -> Global(o, v)

\* ---------------------------------------------------------------- evaluation
\* A node of Boolean type (field t = "b") is never undefined: undefinedness of its operands makes
\* it false, which is the "nearest enclosing Boolean context".
Guard(e, r) == IF r = <<>> /\ e.t = "b" THEN <<FALSE>> ELSE r

RECURSIVE Eval(_, _, _), EvalIf(_, _, _, _), Gen(_, _, _, _)

EvalIf(e, k, F, env) ==      \* lazy: only the condition prefix and the chosen branch are evaluated
  IF k = Len(e.a) THEN Eval(e.a[k], F, env)
  ELSE LET c == Eval(e.a[k], F, env)
       IN  IF c = <<TRUE>> THEN Eval(e.a[k + 1], F, env) ELSE EvalIf(e, k + 2, F, env)

\* sequence of environments produced by generators g[k..], or <<>> wrapped: [ok |-> BOOLEAN, s |-> seq]
Gen(g, k, F, env) ==
  IF k > Len(g) THEN [ok |-> TRUE, s |-> <<env>>]
  ELSE LET coll == Eval(g[k].e, F, env)
       IN IF coll = <<>> THEN [ok |-> FALSE, s |-> <<>>]
          ELSE LET vals == IF g[k].c = "set" THEN SetToSorted(coll[1]) ELSE coll[1].el
                   sub == TLCEval([i \in 1..Len(vals) |->
                              LET env2 == (g[k].n :> vals[i]) @@ env
                                  w == IF "w" \in DOMAIN g[k] THEN Eval(g[k].w, F, env2) ELSE <<TRUE>>
                              IN IF w = <<TRUE>> THEN Gen(g, k + 1, F, env2) ELSE [ok |-> TRUE, s |-> <<>>]])
               IN [ok |-> \A i \in DOMAIN sub : sub[i].ok,
                   s |-> FlattenSeq([i \in 1..Len(vals) |-> sub[i].s])]

Eval(e, F, env) ==
  CASE e.k = "c" -> <<e.v>>
    [] e.k = "v" -> <<env[e.n]>>
    [] e.k = "o" ->
         LET v == TLCEval([i \in 1..Len(e.a) |-> Eval(e.a[i], F, env)])
         IN  IF \E i \in DOMAIN v : v[i] = <<>> THEN Guard(e, <<>>)
             ELSE Guard(e, Builtin(e.o, [i \in DOMAIN v |-> v[i][1]]))
    [] e.k = "set" ->
         LET v == TLCEval([i \in 1..Len(e.a) |-> Eval(e.a[i], F, env)])
         IN  IF \E i \in DOMAIN v : v[i] = <<>> THEN <<>> ELSE <<{v[i][1] : i \in DOMAIN v}>>
    [] e.k = "arr" ->
         LET v == TLCEval([i \in 1..Len(e.a) |-> Eval(e.a[i], F, env)])
         IN  IF \E i \in DOMAIN v : v[i] = <<>> THEN <<>> ELSE <<Arr([i \in DOMAIN v |-> v[i][1]])>>
    [] e.k = "arrnd" ->
         LET v == TLCEval([i \in 1..Len(e.a) |-> Eval(e.a[i], F, env)])
         IN  IF \E i \in DOMAIN v : v[i] = <<>> THEN <<>>
             ELSE <<[ix |-> e.ix, el |-> [i \in DOMAIN v |-> v[i][1]]]>>
    [] e.k = "reix" ->           \* the same elements in row-major order under other index sets
         LET a == Eval(e.r, F, env)
         IN  IF a = <<>> THEN <<>> ELSE <<[ix |-> e.ix, el |-> a[1].el]>>
    [] e.k = "acc" ->
         LET a == Eval(e.r, F, env)
             v == TLCEval([i \in 1..Len(e.a) |-> Eval(e.a[i], F, env)])
         IN  IF a = <<>> \/ \E i \in DOMAIN v : v[i] = <<>> THEN Guard(e, <<>>)
             ELSE LET idx == [i \in DOMAIN v |-> v[i][1]]
                  IN IF InIx(a[1].ix, idx) THEN <<At(a[1], idx)>> ELSE Guard(e, <<>>)
    [] e.k = "slice" ->          \* e.s[k] = a set expression for each dimension; result keeps dims with kind "s"
         LET a == Eval(e.r, F, env)
             v == TLCEval([i \in 1..Len(e.a) |-> Eval(e.a[i], F, env)])
         IN  IF a = <<>> \/ \E i \in DOMAIN v : v[i] = <<>> THEN <<>>
             ELSE LET rg == [i \in DOMAIN v |-> IF e.m[i] = "i" THEN <<v[i][1], v[i][1]>>
                                               ELSE IF v[i][1] = {} THEN <<1, 0>>
                                               ELSE <<SetMinI(v[i][1]), SetMaxI(v[i][1])>>]
                  IN IF \E i \in DOMAIN rg : rg[i][1] <= rg[i][2]
                          /\ (rg[i][1] < a[1].ix[i][1] \/ rg[i][2] > a[1].ix[i][2]) THEN <<>>
                     ELSE LET ts == Tuples(rg)
                              keep == SelectSeq([i \in 1..Len(rg) |-> i], LAMBDA i : e.m[i] = "s")
                          IN <<[ix |-> [j \in 1..Len(keep) |-> rg[keep[j]]],
                                el |-> [j \in 1..Len(ts) |-> At(a[1], ts[j])]]>>
    [] e.k = "if" -> EvalIf(e, 1, F, env)
    [] e.k = "let" ->           \* one local definition; constraint locals have n = ""
         LET d == Eval(e.e, F, env)
         IN  IF e.n = "" THEN (IF d = <<TRUE>> THEN Eval(e.b, F, env) ELSE Guard(e, <<>>))
             ELSE IF d = <<>> THEN Guard(e, <<>>)
             ELSE IF "d" \in DOMAIN e /\ ~(d[1] \in {e.d[i] : i \in DOMAIN e.d}) THEN Guard(e, <<>>)
             ELSE Eval(e.b, F, (e.n :> d[1]) @@ env)
    [] e.k = "comp" ->
         LET gs == Gen(e.g, 1, F, env)
         IN  IF ~gs.ok THEN <<>>
             ELSE LET v == TLCEval([i \in 1..Len(gs.s) |-> Eval(e.b, F, gs.s[i])])
                  IN IF \E i \in DOMAIN v : v[i] = <<>> THEN <<>>
                     ELSE IF e.c = "set" THEN <<{v[i][1] : i \in DOMAIN v}>>
                     ELSE <<Arr([i \in DOMAIN v |-> v[i][1]])>>
    [] e.k = "absent" -> <<<<>>>>
    [] e.k = "default" ->        \* lazy: the alternative counts only when the value is undefined or absent
         LET a == Eval(e.a[1], F, env)
         IN  IF a = <<>> THEN Guard(e, Eval(e.a[2], F, env))
             ELSE IF ~e.opt THEN a
             ELSE IF a[1] = <<>> THEN Guard(e, Eval(e.a[2], F, env))
             ELSE a[1]
    [] e.k = "tup" ->
         LET v == TLCEval([i \in 1..Len(e.a) |-> Eval(e.a[i], F, env)])
         IN  IF \E i \in DOMAIN v : v[i] = <<>> THEN <<>> ELSE <<[i \in DOMAIN v |-> v[i][1]]>>
    [] e.k = "fld" ->
         LET r == Eval(e.r, F, env) IN IF r = <<>> THEN Guard(e, <<>>) ELSE <<r[1][e.i]>>
    [] e.k = "call" ->           \* user-defined function or predicate: strict in its arguments
         LET v == TLCEval([i \in 1..Len(e.a) |-> Eval(e.a[i], F, env)])
             f == F[e.f]
         IN  IF \E i \in DOMAIN v : v[i] = <<>> THEN Guard(e, <<>>)
             ELSE LET env2 == [p \in {f.p[i] : i \in DOMAIN f.p} |->
                                 v[CHOOSE i \in DOMAIN f.p : f.p[i] = p][1]]
                  IN Guard(e, Eval(f.b, F, IF "g" \in DOMAIN f THEN env2 @@ env ELSE env2))
    [] OTHER -> Assert(FALSE, <<"unknown node", e.k>>)
=============================================================================
