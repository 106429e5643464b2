------------------------------ MODULE MznPar ------------------------------
(* Evaluation of fixed (par) expressions: values of the built-in functions, and which assertions and
   aborts are reached.  Floats are counted in quarters.  Arrays are [d |-> index ranges, a |-> row-major
   elements].  The result of an evaluation is [v, must, may]: the value if must = {}, the messages of
   errors which certainly are reached, and of those which may be reached or not (where the language
   leaves open whether a value which is not needed is computed). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
Quo(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
MinI(a, b) == IF a <= b THEN a ELSE b
MaxI(a, b) == IF a >= b THEN a ELSE b
B2I(b) == IF b THEN 1 ELSE 0
RECURSIVE Fold(_, _, _)     \* sum
Fold(s, i, z) == IF i > Len(s) THEN z ELSE Fold(s, i + 1, z + s[i])
SumS(s) == Fold(s, 1, 0)
RECURSIVE Prod(_, _)
Prod(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * Prod(s, i + 1)
SeqSet(s) == {s[i] : i \in DOMAIN s}
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
A1(s) == [d |-> <<<<1, Len(s)>>>>, a |-> s]
AL(lo, s) == [d |-> <<<<lo, lo + Len(s) - 1>>>>, a |-> s]
Lo(x) == x.d[1][1]
Span(r) == IF r[2] < r[1] THEN 0 ELSE r[2] - r[1] + 1
\* strings
RECURSIVE Cat(_, _, _)
Cat(s, i, d) == IF i > Len(s) THEN "" ELSE IF i = Len(s) THEN s[i] ELSE s[i] \o d \o Cat(s, i + 1, d)
Join(d, s) == Cat(s, 1, d)
RECURSIVE Blank(_)
Blank(n) == IF n <= 0 THEN "" ELSE " " \o Blank(n - 1)
Justify(w, s) == IF w >= 0 THEN Blank(w - Len(s)) \o s ELSE s \o Blank(-w - Len(s))
Cut(p, s) == IF Len(s) > p THEN (IF p = 0 THEN "" ELSE SubSeq(s, 1, p)) ELSE s
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE Esc(_, _)
Esc(s, i) == IF i > Len(s) THEN ""
             ELSE (CASE Ch(s, i) = "\"" -> "\\\"" [] Ch(s, i) = "\\" -> "\\\\" [] Ch(s, i) = "\n" -> "\\n" [] Ch(s, i) = "\t" -> "\\t"
                     [] OTHER -> Ch(s, i)) \o Esc(s, i + 1)
Quoted(s) == "\"" \o Esc(s, 1) \o "\""
RECURSIVE Split(_, _, _, _)
Split(s, d, from, i) ==
  IF i + Len(d) - 1 > Len(s) THEN <<SubSeq(s, from, Len(s))>>
  ELSE IF SubSeq(s, i, i + Len(d) - 1) = d THEN <<SubSeq(s, from, i - 1)>> \o Split(s, d, i + Len(d), i + Len(d))
  ELSE Split(s, d, from, i + 1)
\* decimal notation of a number of quarters
Frac(q, p) == LET r == Abs(q) % 4
                  t == CASE r = 0 -> "00" [] r = 1 -> "25" [] r = 2 -> "50" [] OTHER -> "75"
              IN  t \o (CASE p = 2 -> "" [] p = 3 -> "0" [] OTHER -> "00")
FixF(q, p) == (IF q < 0 THEN "-" ELSE "") \o ToString(Abs(q) \div 4) \o "." \o Frac(q, p)
ShowF(q) == LET r == Abs(q) % 4
            IN  (IF q < 0 THEN "-" ELSE "") \o ToString(Abs(q) \div 4) \o
                (CASE r = 0 -> ".0" [] r = 1 -> ".25" [] r = 2 -> ".5" [] OTHER -> ".75")
IsRange(S) == S # {} /\ Cardinality(S) = Max(S) - Min(S) + 1
RECURSIVE Show(_, _, _)       \* value, type, whether inside a structure
ShowSet(S) == IF S = {} THEN "{}" ELSE IF IsRange(S) THEN ToString(Min(S)) \o ".." \o ToString(Max(S))
              ELSE "{" \o Join(",", [i \in 1..Cardinality(S) |-> ToString(Sorted(S)[i])]) \o "}"
Show(v, t, in) == CASE t = "i" -> ToString(v) [] t = "b" -> (IF v THEN "true" ELSE "false")
               [] t = "s" -> Quoted(v) [] t = "f" -> ShowF(v) [] t = "S" -> ShowSet(v)
               [] OTHER -> "[" \o Join(", ", [i \in DOMAIN v.a |-> Show(v.a[i], SubSeq(t, 2, 2), TRUE)]) \o "]"
\* JSON: the nesting follows the dimensions
RECURSIVE JS(_, _)
JS(v, t) == CASE t = "i" -> ToString(v) [] t = "b" -> (IF v THEN "true" ELSE "false") [] t = "s" -> Quoted(v) [] t = "f" -> ShowF(v)
         [] t = "S" -> "{ \"set\" : [" \o Join(",", [i \in 1..Cardinality(v) |-> ToString(Sorted(v)[i])]) \o "]}"
         [] OTHER -> "[" \o Join(", ", [i \in DOMAIN v.a |-> JS(v.a[i], SubSeq(t, 2, 2))]) \o "]"
ShowIx(v) == "[" \o Join(", ", [i \in DOMAIN v.d |-> IF v.d[i][2] < v.d[i][1] THEN "{}" ELSE ToString(v.d[i][1]) \o ".." \o ToString(v.d[i][2])]) \o "]"

\* stable sorting of positions
Before(k, i, j) == k[i] < k[j] \/ (k[i] = k[j] /\ i < j)
Order(k) == SortSeq([i \in DOMAIN k |-> i], LAMBDA i, j : Before(k, i, j))
Keys(s, bool) == IF bool THEN [i \in DOMAIN s |-> B2I(s[i])] ELSE s
First(P(_), s) == CHOOSE i \in DOMAIN s : P(s[i]) /\ \A j \in 1..(i - 1) : ~P(s[j])
\* 2-d: element (i, j)
At2(x, i, j) == x.a[(i - x.d[1][1]) * Span(x.d[2]) + (j - x.d[2][1]) + 1]
Rng(r) == [k \in 1..Span(r) |-> r[1] + k - 1]
RECURSIVE Runs(_)
Runs(S) == IF S = {} THEN <<>>
           ELSE LET a == Min(S)
                    b == CHOOSE y \in S : y >= a /\ (\A z \in a..y : z \in S) /\ (y + 1) \notin S
                IN  <<a, b>> \o Runs(S \ (a..b))
Float(n) == n * 4
Floor(q) == q \div 4
Ceil(q) == -((-q) \div 4)
\* halves are rounded away from zero
Round(q) == IF q >= 0 THEN (q + 2) \div 4 ELSE -((-q + 2) \div 4)

\* the built-in functions
Op(o, a, t) ==
  LET x == a[1] y == a[2] z == a[3] IN
  CASE o = "add" -> x + y [] o = "sub" -> x - y [] o = "mul" -> x * y [] o = "neg" -> -x [] o = "abs" -> Abs(x)
    [] o = "div" -> Quo(x, y) [] o = "mod" -> x - y * Quo(x, y) [] o = "min" -> MinI(x, y) [] o = "max" -> MaxI(x, y) [] o = "pow" -> Pow(x, y)
    [] o = "b2i" -> B2I(x) [] o = "strlen" -> Len(x) [] o = "card" -> Cardinality(x) [] o = "len" -> Len(x.a)
    [] o = "sum" -> SumS(x.a) [] o = "prod" -> Prod(x.a, 1) [] o = "amin" -> Min(SeqSet(x.a)) [] o = "amax" -> Max(SeqSet(x.a))
    [] o = "smin" -> Min(x) [] o = "smax" -> Max(x)
    [] o = "argmin" -> Lo(x) - 1 + First(LAMBDA v : \A k \in DOMAIN x.a : v <= x.a[k], x.a)
    [] o = "argmax" -> Lo(x) - 1 + First(LAMBDA v : \A k \in DOMAIN x.a : v >= x.a[k], x.a)
    [] o = "argminb" -> Lo(x) - 1 + First(LAMBDA v : \A k \in DOMAIN x.a : B2I(v) <= B2I(x.a[k]), x.a)
    [] o = "argmaxb" -> Lo(x) - 1 + First(LAMBDA v : \A k \in DOMAIN x.a : B2I(v) >= B2I(x.a[k]), x.a)
    [] o = "count" -> Count(x.a, y) [] o = "countb" -> Count(x.a, TRUE)
    [] o = "acc" -> x.a[y - Lo(x) + 1] [] o = "acc2" -> At2(x, y, z)
    [] o = "floor" -> Floor(x) [] o = "ceil" -> Ceil(x) [] o = "round" -> Round(x)
    [] o = "i2f" -> Float(x) [] o = "fadd" -> x + y [] o = "fsub" -> x - y [] o = "fneg" -> -x [] o = "fmuli" -> x * y
    [] o = "fsum" -> SumS(x.a)
    \* Boolean
    [] o = "not" -> ~x [] o = "iff" -> x = y [] o = "xor" -> x # y [] o = "eq" -> x = y [] o = "ne" -> x # y
    [] o = "lt" -> x < y [] o = "le" -> x <= y [] o = "gt" -> x > y [] o = "ge" -> x >= y
    [] o = "in" -> x \in y [] o = "subset" -> x \subseteq y [] o = "superset" -> y \subseteq x
    [] o = "forall" -> \A k \in DOMAIN x.a : x.a[k] [] o = "exists" -> \E k \in DOMAIN x.a : x.a[k]
    [] o = "xorall" -> Count(x.a, TRUE) % 2 = 1 [] o = "iffall" -> Count(x.a, TRUE) % 2 = 0
    [] o = "clause" -> (\E k \in DOMAIN x.a : x.a[k]) \/ (\E k \in DOMAIN y.a : ~y.a[k])
    [] o = "ixagree" -> x.d = y.d \/ (Len(x.a) = 0 /\ Len(y.a) = 0)
    [] o = "hasix" -> x \in y.d[1][1]..y.d[1][2] [] o = "hasel" -> x \in SeqSet(y.a)
    [] o = "aeq" -> x.a = y.a
    \* strings
    [] o = "cat" -> x \o y [] o = "concat" -> Join("", x.a) [] o = "join" -> Join(x, y.a)
    [] o = "show" -> Show(x, t, FALSE) [] o = "json" -> JS(x, t)
    [] o = "showint" -> Justify(x, ToString(y)) [] o = "showfloat" -> Justify(x, FixF(z, y))
    [] o = "format" -> Justify(x, Show(y, t, FALSE)) [] o = "formatp" -> Justify(x, Cut(y, Show(z, t, FALSE)))
    [] o = "fjust" -> Justify(x, y) [] o = "fjustp" -> Justify(x, Cut(y, z))
    [] o = "showix" -> ShowIx(x) [] o = "jarr" -> "[" \o Join(",", x.a) \o "]"
    [] o = "split" -> A1(IF y = "" THEN [k \in 1..Len(x) |-> Ch(x, k)] ELSE IF x = "" THEN <<"">> ELSE Split(x, y, 1, 1))
    \* arrays
    [] o = "append" -> A1(x.a \o y.a)
    [] o = "reverse" -> [x EXCEPT !.a = Reverse(@)]
    [] o = "sort" -> [x EXCEPT !.a = [k \in DOMAIN x.a |-> x.a[Order(x.a)[k]]]]
    [] o = "sortb" -> [x EXCEPT !.a = [k \in DOMAIN x.a |-> x.a[Order(Keys(x.a, TRUE))[k]]]]
    [] o = "sortby" -> [x EXCEPT !.a = [k \in DOMAIN x.a |-> x.a[Order(y.a)[k]]]]
    [] o = "argsort" -> A1([k \in DOMAIN x.a |-> Lo(x) - 1 + Order(x.a)[k]])
    [] o = "set2array" -> A1(Sorted(x)) [] o = "array1d" -> A1(x.a)
    [] o = "array1ds" -> [d |-> <<<<x, x + Len(y.a) - 1>>>>, a |-> y.a]
    [] o = "mk2" -> [d |-> <<<<x, x + y - 1>>, <<1, Len(z.a) \div y>>>>, a |-> z.a]
    [] o = "row" -> [d |-> <<x.d[2]>>, a |-> [k \in 1..Span(x.d[2]) |-> At2(x, y, x.d[2][1] + k - 1)]]
    [] o = "col" -> [d |-> <<x.d[1]>>, a |-> [k \in 1..Span(x.d[1]) |-> At2(x, x.d[1][1] + k - 1, y)]]
    [] o = "slice" -> [d |-> <<<<y, z>>>>, a |-> [k \in 1..Span(<<y, z>>) |-> x.a[y - Lo(x) + k]]]
    [] o = "select" -> A1([k \in 1..Cardinality(y) |-> x.a[Sorted(y)[k] - Lo(x) + 1]])
    [] o = "cat1" -> [d |-> <<<<1, Span(x.d[1]) + Span(y.d[1])>>, x.d[2]>>, a |-> x.a \o y.a]
    [] o = "cat2" -> [d |-> <<x.d[1], <<1, Span(x.d[2]) + Span(y.d[2])>>>>,
                      a |-> FlattenSeq([k \in 1..Span(x.d[1]) |-> SubSeq(x.a, (k - 1) * Span(x.d[2]) + 1, k * Span(x.d[2]))
                                                                  \o SubSeq(y.a, (k - 1) * Span(y.d[2]) + 1, k * Span(y.d[2]))])]
    [] o = "ranges" -> A1(Runs(x)) [] o = "i2fs" -> [x EXCEPT !.a = [k \in DOMAIN @ |-> Float(@[k])]]
    [] o = "b2is" -> [x EXCEPT !.a = [k \in DOMAIN @ |-> B2I(@[k])]]
    \* sets
    [] o = "range" -> x..y [] o = "union" -> x \cup y [] o = "inter" -> x \cap y [] o = "diff" -> x \ y [] o = "symdiff" -> (x \ y) \cup (y \ x)
    [] o = "ixset" -> x.d[1][1]..x.d[1][2] [] o = "ixset1" -> x.d[1][1]..x.d[1][2] [] o = "ixset2" -> x.d[2][1]..x.d[2][2]
    [] o = "a2s" -> SeqSet(x.a) [] o = "aunion" -> UNION SeqSet(x.a) [] o = "ainter" -> {v \in UNION SeqSet(x.a) : \A k \in DOMAIN x.a : v \in x.a[k]}

---------------------------------------------------------------------------
R(v) == [v |-> v, must |-> {}, may |-> {}]
Musts(rs) == UNION {rs[i].must : i \in DOMAIN rs}
Mays(rs) == UNION {rs[i].may : i \in DOMAIN rs}
Bad(must, may) == [v |-> "none", must |-> must, may |-> may]
With(r, must, may) == IF must \cup r.must # {} THEN Bad(must \cup r.must, may \cup r.may) ELSE [r EXCEPT !.may = @ \cup may]
Val(x, t) == CASE t = "S" -> {x[i] : i \in DOMAIN x} [] OTHER -> x
\* operations which do not need the elements of their array arguments
ShapeOps == {"len", "ixset", "ixset1", "ixset2", "hasix", "ixagree", "showix"}
RECURSIVE Ev(_, _), Shape(_, _), EvAll(_, _, _), Comp(_, _, _, _), Loop(_, _, _, _, _), Lets(_, _, _)
EvAll(es, env, i) == IF i > Len(es) THEN <<>> ELSE <<Ev(es[i], env)>> \o EvAll(es, env, i + 1)
\* an array literal whose elements need not be evaluated
Shape(e, env) ==
  CASE e.k = "arr" -> LET rs == EvAll(e.a, env, 1) IN [v |-> AL(e.lo, [i \in DOMAIN rs |-> rs[i].v]), must |-> {}, may |-> Musts(rs) \cup Mays(rs)]
    [] e.k = "o" /\ e.o = "mk2" -> LET r == Shape(e.a[3], env) IN [r EXCEPT !.v = Op("mk2", <<e.a[1].v, e.a[2].v, @>>, "")]
    [] OTHER -> Ev(e, env)
\* [v |-> sequence, must, may]
Comp(e, g, env, u) ==
  IF g > Len(e.g)
  THEN LET c == IF e.w.k = "none" THEN R(TRUE) ELSE Ev(e.w, env)
       IN  IF c.must # {} THEN c
           ELSE IF ~c.v THEN [v |-> <<>>, must |-> {}, may |-> c.may]
           ELSE LET b == Ev(e.b, env) IN With([v |-> <<b.v>>, must |-> b.must, may |-> b.may], {}, c.may)
  ELSE LET s == Ev(e.g[g].s, env)
       IN  IF s.must # {} THEN s
           ELSE With(Loop(e, g, env, IF e.g[g].t = "S" THEN Sorted(s.v) ELSE s.v.a, 1), {}, s.may)
Loop(e, g, env, s, i) ==
  IF i > Len(s) THEN R(<<>>)
  ELSE LET h == Comp(e, g + 1, (e.g[g].n :> s[i]) @@ env, 0)
           r == Loop(e, g, env, s, i + 1)
       IN  IF h.must \cup r.must # {} THEN Bad(h.must \cup r.must, h.may \cup r.may)
           ELSE [v |-> h.v \o r.v, must |-> {}, may |-> h.may \cup r.may]
Lets(ds, i, env) == IF i > Len(ds) THEN [env |-> env, must |-> {}, may |-> {}]
                    ELSE LET r == Ev(ds[i].e, env)
                         IN  IF r.must # {} THEN [env |-> env, must |-> r.must, may |-> r.may]
                             ELSE LET q == Lets(ds, i + 1, (ds[i].n :> r.v) @@ env) IN [q EXCEPT !.may = @ \cup r.may]
Ev(e, env) ==
  CASE e.k = "c" -> R(Val(e.v, e.t))
    [] e.k = "id" -> R(env[e.n])
    [] e.k = "o" /\ e.o = "acc" /\ e.a[1].k = "arr"
         -> LET rs == EvAll(e.a[1].a, env, 1)
                i == Ev(e.a[2], env)
                all == Musts(rs) \cup Mays(rs)
            IN  IF i.must # {} THEN Bad(i.must, all \cup i.may)
                ELSE LET c == rs[i.v - e.a[1].lo + 1] IN [v |-> c.v, must |-> c.must, may |-> all \cup i.may]
    [] e.k = "o" /\ e.o = "acc2"
         -> LET rs == EvAll(e.a[1].a[3].a, env, 1)
                c == Op("acc2", <<Op("mk2", <<e.a[1].a[1].v, e.a[1].a[2].v, AL(1, [i \in DOMAIN rs |-> rs[i]])>>, ""), e.a[2].v, e.a[3].v>>, "")
            IN  [v |-> c.v, must |-> c.must, may |-> Musts(rs) \cup Mays(rs)]
    \* an element which decides the result may hide errors in others
    [] e.k = "o" /\ e.o \in {"forall", "exists"} /\ e.a[1].k = "arr"
         -> LET rs == EvAll(e.a[1].a, env, 1)
                dec == \E i \in DOMAIN rs : rs[i].must = {} /\ rs[i].v = (e.o = "exists")
            IN  IF dec THEN [v |-> e.o = "exists", must |-> {}, may |-> Musts(rs) \cup Mays(rs)]
                ELSE IF Musts(rs) # {} THEN Bad(Musts(rs), Mays(rs))
                ELSE [v |-> e.o # "exists", must |-> {}, may |-> Mays(rs)]
    [] e.k = "o" /\ e.o = "clause"
         -> LET rs == EvAll(e.a, env, 1)
                el(i) == IF e.a[i].k = "arr" THEN EvAll(e.a[i].a, env, 1)
                         ELSE IF rs[i].must # {} THEN <<rs[i]>> ELSE [k \in DOMAIN rs[i].v.a |-> R(rs[i].v.a[k])]
                dec == \E i \in 1..2 : \E q \in SeqSet(el(i)) : q.must = {} /\ q.v = (i = 1)
            IN  IF dec THEN [v |-> TRUE, must |-> {}, may |-> Musts(rs) \cup Mays(rs)]
                ELSE IF Musts(rs) # {} THEN Bad(Musts(rs), Mays(rs))
                ELSE [v |-> FALSE, must |-> {}, may |-> Mays(rs)]
    [] e.k = "o" -> LET rs == IF e.o \in ShapeOps THEN [i \in DOMAIN e.a |-> Shape(e.a[i], env)] ELSE EvAll(e.a, env, 1)
                    IN  IF Musts(rs) # {} THEN Bad(Musts(rs), Mays(rs))
                        ELSE [v |-> Op(e.o, [i \in 1..3 |-> IF i \in DOMAIN rs THEN rs[i].v ELSE 0], e.st), must |-> {}, may |-> Mays(rs)]
    [] e.k = "arr" -> LET rs == EvAll(e.a, env, 1)
                      IN  IF Musts(rs) # {} THEN Bad(Musts(rs), Mays(rs))
                          ELSE [v |-> AL(e.lo, [i \in DOMAIN rs |-> rs[i].v]), must |-> {}, may |-> Mays(rs)]
    [] e.k = "set" -> LET rs == EvAll(e.a, env, 1)
                      IN  IF Musts(rs) # {} THEN Bad(Musts(rs), Mays(rs))
                          ELSE [v |-> {rs[i].v : i \in DOMAIN rs}, must |-> {}, may |-> Mays(rs)]
    \* the second operand is not reached when the first decides
    [] e.k = "and" -> LET x == Ev(e.a[1], env) IN IF x.must # {} \/ ~x.v THEN x ELSE With(Ev(e.a[2], env), {}, x.may)
    [] e.k = "or" -> LET x == Ev(e.a[1], env) IN IF x.must # {} \/ x.v THEN x ELSE With(Ev(e.a[2], env), {}, x.may)
    [] e.k = "imp" -> LET x == Ev(e.a[1], env)
                      IN  IF x.must # {} THEN x ELSE IF ~x.v THEN [x EXCEPT !.v = TRUE] ELSE With(Ev(e.a[2], env), {}, x.may)
    [] e.k = "if" -> LET c == Ev(e.a[1], env)
                     IN  IF c.must # {} THEN c ELSE With(IF c.v THEN Ev(e.a[2], env) ELSE Ev(e.a[3], env), {}, c.may)
    [] e.k = "assert" -> LET c == Ev(e.a[1], env)
                         IN  IF c.must # {} THEN c
                             ELSE IF ~c.v THEN Bad({e.m}, c.may)
                             ELSE With(Ev(e.a[2], env), {}, c.may)
    [] e.k = "abort" -> Bad({e.m}, {})
    [] e.k = "let" -> LET q == Lets(e.d, 1, env)
                      IN  IF q.must # {} THEN Bad(q.must, q.may) ELSE With(Ev(e.b, q.env), {}, q.may)
    [] e.k = "call" -> LET rs == EvAll(e.a, env, 1)
                       IN  IF Musts(rs) # {} THEN Bad(Musts(rs), Mays(rs))
                           ELSE With(Ev(e.b, [n \in {e.p[i] : i \in DOMAIN e.p} |-> rs[CHOOSE i \in DOMAIN e.p : e.p[i] = n].v]), {}, Mays(rs))
    [] e.k = "comp" -> LET r == Comp(e, 1, env, 0)
                       IN  IF r.must # {} THEN Bad(r.must, r.may)
                           ELSE [v |-> IF e.t = "S" THEN SeqSet(r.v) ELSE A1(r.v), must |-> {}, may |-> r.may]
=============================================================================
