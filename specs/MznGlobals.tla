----------------------------- MODULE MznGlobals -----------------------------
(* The documented meaning of the constraints of the standard library (the doc comments of
   share/minizinc/std/*.mzn), as operations on defined values: Global(o, v) = <<r>> or <<>> (undefined).
   Arrays are [ix, el] in row-major order; sets are TLA+ sets; options <<>> or <<x>>. *)
EXTENDS MznBase

El(a) == a.el
Lo(a) == a.ix[1][1]
Ixs(a) == {a.ix[1][1] + k - 1 : k \in 1..Len(a.el)}          \* index set of a 1-d array
Get(a, i) == a.el[i - a.ix[1][1] + 1]
Dm(a) == DOMAIN a.el
Elems(a) == {a.el[i] : i \in Dm(a)}
Present(s) == SelectSeq(s, LAMBDA x : x # <<>>)              \* of a sequence of options
Vals(s) == LET p == Present(s) IN [i \in DOMAIN p |-> p[i][1]]
AllDiff(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Asc(s, L(_, _)) == \A i \in 1..(Len(s) - 1) : L(s[i], s[i + 1])
CountOf(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
SumOver(I, f(_)) == FoldSet(LAMBDA i, a : a + f(i), 0, I)
Row(a, i) == [k \in 1..DimLen(a.ix[2]) |-> a.el[(i - 1) * DimLen(a.ix[2]) + k]]     \* i-th row, from 1
Col(a, k) == [i \in 1..DimLen(a.ix[1]) |-> a.el[(i - 1) * DimLen(a.ix[2]) + k]]
Rows(a) == DimLen(a.ix[1])
Cols(a) == DimLen(a.ix[2])

SetCmp(S, T) == LexCmp(SetToSorted(S), SetToSorted(T))
LexI(s, t) == LexCmp(s, t)
RECURSIVE LexS(_, _)
LexS(s, t) ==
  IF s = <<>> THEN (IF t = <<>> THEN 0 ELSE -1)
  ELSE IF t = <<>> THEN 1
  ELSE LET c == SetCmp(Head(s), Head(t)) IN IF c # 0 THEN c ELSE LexS(Tail(s), Tail(t))

\* arg_min/arg_max: least index of an extreme element, <<>> if there is none
ArgBest(a, s, B(_, _)) ==        \* s: sequence of options
  LET c == {i \in DOMAIN s : s[i] # <<>> /\ \A j \in DOMAIN s : s[j] # <<>> => ~B(s[j][1], s[i][1])}
  IN IF c = {} THEN <<>> ELSE <<Lo(a) + SetMinI(c) - 1>>
Somes(s) == [i \in DOMAIN s |-> <<s[i]>>]
LtI(a, b) == a < b
GtI(a, b) == a > b

\* circuits: the orbit of a node under a successor function
RECURSIVE Orbit(_, _, _)
Orbit(f, S, i) == IF i \in S THEN S ELSE Orbit(f, S \cup {i}, f[i])
IsCircuitOn(f, N) ==            \* f : a function into N on the nodes N, forming one cycle through all of N
  \/ N = {}
  \/ /\ \A i \in N : f[i] \in N
     /\ \A i \in N : f[i] # i                       \* a node on its own is not a circuit
     /\ \A i, j \in N : i # j => f[i] # f[j]
     /\ \A i \in N : Orbit([k \in N |-> f[k]], {}, i) = N

\* tasks
Overload(s, d, r, cap, n) ==    \* s : sequence of options
  LET run(t) == {i \in 1..n : s[i] # <<>> /\ s[i][1] <= t /\ t < s[i][1] + d[i]}
      starts == {s[i][1] : i \in {k \in 1..n : s[k] # <<>>}}
  IN \E t \in starts : run(t) # {} /\ SumOver(run(t), LAMBDA i : r[i]) > cap
NoOverlapStrict(s, d) == \A i, j \in DOMAIN s : i < j /\ s[i] # <<>> /\ s[j] # <<>> =>
                            (s[i][1] + d[i] <= s[j][1] \/ s[j][1] + d[j] <= s[i][1])
NoOverlapWeak(s, d) == \A i, j \in DOMAIN s : i < j /\ s[i] # <<>> /\ s[j] # <<>> =>
                            (d[i] = 0 \/ d[j] = 0 \/ s[i][1] + d[i] <= s[j][1] \/ s[j][1] + d[j] <= s[i][1])

\* graphs: edges e with endpoints fr[e], to[e]; ns: node -> BOOLEAN as an array; es as a sequence
SelN(ns) == {i \in Ixs(ns) : Get(ns, i)}
SelE(es) == {e \in DOMAIN es : es[e]}
IsSub(fr, to, ns, es) == \A e \in SelE(es) : fr[e] \in SelN(ns) /\ to[e] \in SelN(ns)
RECURSIVE Reach(_, _, _)
Reach(E, R, frontier) ==        \* E: set of <<from, to>>
  LET nx == {p[2] : p \in {q \in E : q[1] \in frontier}} \ R
  IN IF nx = {} THEN R ELSE Reach(E, R \cup nx, nx)
DEdges(fr, to, es) == {<<fr[e], to[e]>> : e \in SelE(es)}
UEdges(fr, to, es) == DEdges(fr, to, es) \cup {<<to[e], fr[e]>> : e \in SelE(es)}
RootedAt(E, r, ns) == r \in SelN(ns) /\ Reach(E, {r}, {r}) = SelN(ns)
IsDReach(fr, to, r, ns, es) == IsSub(fr, to, ns, es) /\ RootedAt(DEdges(fr, to, es), r, ns)
IsReach(fr, to, r, ns, es) == IsSub(fr, to, ns, es) /\ RootedAt(UEdges(fr, to, es), r, ns)
IsDTree(fr, to, r, ns, es) == IsDReach(fr, to, r, ns, es) /\ Cardinality(SelE(es)) = Cardinality(SelN(ns)) - 1
IsTree(fr, to, r, ns, es) == IsReach(fr, to, r, ns, es) /\ Cardinality(SelE(es)) = Cardinality(SelN(ns)) - 1
Deg(fr, to, es, n) == CountOf([e \in DOMAIN es |-> es[e] /\ fr[e] = n], LAMBDA b : b)
                      + CountOf([e \in DOMAIN es |-> es[e] /\ to[e] = n], LAMBDA b : b)
IsDPath(fr, to, s, t, ns, es) == IsDTree(fr, to, s, ns, es) /\ IsDTree(to, fr, t, ns, es)
IsPath(fr, to, s, t, ns, es) ==
  /\ IsTree(fr, to, s, ns, es) /\ t \in SelN(ns)
  /\ \A n \in SelN(ns) : Deg(fr, to, es, n) <= 2
  /\ IF s = t THEN SelN(ns) = {s} ELSE Deg(fr, to, es, s) = 1 /\ Deg(fr, to, es, t) = 1
IsDag(fr, to, ns, es) == IsSub(fr, to, ns, es)
  /\ \A e \in SelE(es) : fr[e] \notin Reach(DEdges(fr, to, es), {to[e]}, {to[e]})
WSum(w, es) == SumOver(SelE(es), LAMBDA e : w[e])
AllNodes(n) == [ix |-> <<<<1, n>>>>, el |-> [i \in 1..n |-> TRUE]]

\* automata: d[q][x] a set of successor states; q0; F
InSecond(a, x) == a.ix[2][1] <= x /\ x <= a.ix[2][2]
RECURSIVE RunNfa(_, _, _)
RunNfa(a, Q, s) == IF s = <<>> THEN Q
                   ELSE RunNfa(a, IF InSecond(a, Head(s)) THEN UNION {At(a, <<q, Head(s)>>) : q \in Q} ELSE {}, Tail(s))
Nfa(a, q0, F, s) == RunNfa(a, {q0}, s) \cap F # {}
Dfa(a, q0, F, s) == Nfa([ix |-> a.ix, el |-> [k \in DOMAIN a.el |-> IF a.el[k] = 0 THEN {} ELSE {a.el[k]}]], q0, F, s)
RECURSIVE DfaCost(_, _, _, _, _, _)
DfaCost(a, c, q, F, s, acc) ==   \* <<cost>> or <<>> when not accepted
  IF s = <<>> THEN (IF q \in F THEN <<acc>> ELSE <<>>)
  ELSE IF ~InSecond(a, Head(s)) THEN <<>>
  ELSE LET y == At(a, <<q, Head(s)>>)
       IN IF y = 0 THEN <<>> ELSE DfaCost(a, c, y, F, Tail(s), acc + At(c, <<q, Head(s)>>))
\* regular expressions as trees over integers: the language membership by derivatives on spans
RECURSIVE Re(_, _, _, _), ReStar(_, _, _, _)
Re(e, s, i, j) ==                \* s[i..j-1] in the language of e
  CASE e[1] = "eps" -> i = j
    [] e[1] = "sym" -> j = i + 1 /\ s[i] \in {e[2][k] : k \in DOMAIN e[2]}
    [] e[1] = "nsym" -> j = i + 1 /\ s[i] \notin {e[2][k] : k \in DOMAIN e[2]}
    [] e[1] = "any" -> j = i + 1
    [] e[1] = "cat" -> \E k \in i..j : Re(e[2], s, i, k) /\ Re(e[3], s, k, j)
    [] e[1] = "alt" -> Re(e[2], s, i, j) \/ Re(e[3], s, i, j)
    [] e[1] = "opt" -> i = j \/ Re(e[2], s, i, j)
    [] e[1] = "star" -> ReStar(e[2], s, i, j)
    [] e[1] = "plus" -> Re(e[2], s, i, j) \/ \E k \in i..j : Re(e[2], s, i, k) /\ ReStar(e[2], s, k, j)
ReStar(e, s, i, j) == i = j \/ \E k \in (i + 1)..j : Re(e, s, i, k) /\ ReStar(e, s, k, j)

Precedes(a, b, s) == \A i \in DOMAIN s : s[i] = b => \E j \in 1..(i - 1) : s[j] = a
PrecedesS(a, b, s) == \A i \in DOMAIN s : (b \in s[i] /\ a \notin s[i]) =>
                         \E j \in 1..(i - 1) : a \in s[j] /\ b \notin s[j]
SortSeqI(s) == SortSeq(s, LAMBDA a, b : a < b)
Window(s, i, w) == SubSeq(s, i, i + w - 1)
PermLeast(x, p) ==               \* x: sequence, p: set of permutations (sequences): x is least among its images
  \A q \in p : \A r \in p :
     LET inv == [i \in DOMAIN q |-> CHOOSE j \in DOMAIN q : q[j] = i]
     IN LexCmp(x, [i \in DOMAIN x |-> x[r[inv[i]]]]) <= 0
\* geost
Boxes(rs, ro, sh, x, kd, o, K) == {<<r, [k \in 1..K |-> At(x, <<o, k>>) + At(ro, <<r, k>>)],
                                     [k \in 1..K |-> At(x, <<o, k>>) + At(ro, <<r, k>>) + At(rs, <<r, k>>)]>> :
                                   r \in Get(sh, Get(kd, o))}
Apart(b, c, K) == \E k \in 1..K : b[3][k] <= c[2][k] \/ c[3][k] <= b[2][k]

Graph(o, v) ==
  CASE o = "g_subgraph" -> <<IsSub(El(v[1]), El(v[2]), v[3], El(v[4]))>>
    [] o = "g_dreachable" -> <<IsDReach(El(v[1]), El(v[2]), v[3], v[4], El(v[5]))>>
    [] o = "g_reachable" -> <<IsReach(El(v[1]), El(v[2]), v[3], v[4], El(v[5]))>>
    [] o = "g_dconnected" -> <<\E r \in Ixs(v[3]) : IsDReach(El(v[1]), El(v[2]), r, v[3], El(v[4]))>>
    [] o = "g_connected" -> <<\E r \in Ixs(v[3]) : IsReach(El(v[1]), El(v[2]), r, v[3], El(v[4]))>>
    [] o = "g_dtree" -> <<IsDTree(El(v[1]), El(v[2]), v[3], v[4], El(v[5]))>>
    [] o = "g_tree" -> <<IsTree(El(v[1]), El(v[2]), v[3], v[4], El(v[5]))>>
    [] o = "g_dpath" -> <<IsDPath(El(v[1]), El(v[2]), v[3], v[4], v[5], El(v[6]))>>
    [] o = "g_path" -> <<IsPath(El(v[1]), El(v[2]), v[3], v[4], v[5], El(v[6]))>>
    [] o = "g_bounded_dpath" -> <<IsDPath(El(v[1]), El(v[2]), v[4], v[5], v[6], El(v[7])) /\ v[8] = WSum(El(v[3]), El(v[7]))>>
    [] o = "g_bounded_path" -> <<IsPath(El(v[1]), El(v[2]), v[4], v[5], v[6], El(v[7])) /\ v[8] = WSum(El(v[3]), El(v[7]))>>
    [] o = "g_dag" -> <<IsDag(El(v[1]), El(v[2]), v[3], El(v[4]))>>
    [] o = "g_dwst" -> <<IsDTree(El(v[1]), El(v[2]), v[4], AllNodes(v[7]), El(v[5])) /\ v[6] = WSum(El(v[3]), El(v[5]))>>
    [] o = "g_wst" -> <<(\E r \in 1..v[6] : IsTree(El(v[1]), El(v[2]), r, AllNodes(v[6]), El(v[4]))) /\ v[5] = WSum(El(v[3]), El(v[4]))>>
    [] o = "g_dsteiner" -> <<IsDTree(El(v[1]), El(v[2]), v[4], v[5], El(v[6])) /\ v[7] = WSum(El(v[3]), El(v[6]))>>
    [] o = "g_steiner" -> <<(\E r \in Ixs(v[4]) : IsTree(El(v[1]), El(v[2]), r, v[4], El(v[5]))) /\ v[6] = WSum(El(v[3]), El(v[5]))>>
    [] o = "g_network_flow" -> <<\A n \in Ixs(v[2]) :
          SumOver({e \in Ixs(v[3]) : At(v[1], <<e, 1>>) = n}, LAMBDA e : Get(v[3], e))
          - SumOver({e \in Ixs(v[3]) : At(v[1], <<e, 2>>) = n}, LAMBDA e : Get(v[3], e)) = Get(v[2], n)>>
    [] o = "g_flow_cost" -> <<SumOver(Ixs(v[2]), LAMBDA e : Get(v[1], e) * Get(v[2], e))>>
    [] OTHER -> Assert(FALSE, <<"unknown operation", o>>)

Sched(o, v) ==
  CASE o = "g_cumulative" -> <<~Overload(Somes(El(v[1])), El(v[2]), El(v[3]), v[4], Len(El(v[1])))>>
    [] o = "g_cumulative_opt" -> <<~Overload(El(v[1]), El(v[2]), El(v[3]), v[4], Len(El(v[1])))>>
    [] o = "g_cumulatives" -> <<\A m \in Ixs(v[5]) :
           ~Overload([i \in Dm(v[1]) |-> IF El(v[4])[i] = m THEN <<El(v[1])[i]>> ELSE <<>>], El(v[2]), El(v[3]), Get(v[5], m), Len(El(v[1])))>>
    [] o = "g_disjunctive" -> <<NoOverlapWeak(Somes(El(v[1])), El(v[2]))>>
    [] o = "g_disjunctive_strict" -> <<NoOverlapStrict(Somes(El(v[1])), El(v[2]))>>
    [] o = "g_disjunctive_opt" -> <<NoOverlapWeak(El(v[1]), El(v[2]))>>
    [] o = "g_disjunctive_strict_opt" -> <<NoOverlapStrict(El(v[1]), El(v[2]))>>
    [] o = "g_diffn" -> <<\A i, j \in Dm(v[1]) : i < j =>
           LET x == El(v[1])  y == El(v[2])  a == El(v[3])  b == El(v[4])
           IN x[i] + a[i] <= x[j] \/ x[j] + a[j] <= x[i] \/ y[i] + b[i] <= y[j] \/ y[j] + b[j] <= y[i]>>
    [] o = "g_diffn_nonstrict" -> <<\A i, j \in Dm(v[1]) : i < j =>
           LET x == El(v[1])  y == El(v[2])  a == El(v[3])  b == El(v[4])
           IN a[i] = 0 \/ a[j] = 0 \/ b[i] = 0 \/ b[j] = 0
              \/ x[i] + a[i] <= x[j] \/ x[j] + a[j] <= x[i] \/ y[i] + b[i] <= y[j] \/ y[j] + b[j] <= y[i]>>
    [] o = "g_diffn_k" -> <<\A i, j \in 1..Rows(v[1]) : i < j =>
           LET x(n) == Row(v[1], n)  d(n) == Row(v[2], n)
           IN \E k \in 1..Cols(v[1]) : x(i)[k] + d(i)[k] <= x(j)[k] \/ x(j)[k] + d(j)[k] <= x(i)[k]>>
    [] o = "g_diffn_nonstrict_k" -> <<\A i, j \in 1..Rows(v[1]) : i < j =>
           LET x(n) == Row(v[1], n)  d(n) == Row(v[2], n)
           IN (\E k \in 1..Cols(v[1]) : d(i)[k] = 0 \/ d(j)[k] = 0)
              \/ \E k \in 1..Cols(v[1]) : x(i)[k] + d(i)[k] <= x(j)[k] \/ x(j)[k] + d(j)[k] <= x(i)[k]>>
    [] o = "g_span" -> <<LET P == {i \in Dm(v[3]) : El(v[3])[i] # <<>>}
           IN IF P = {} THEN v[1] = <<>> /\ v[2] = 0
              ELSE /\ v[1] = <<SetMinI({El(v[3])[i][1] : i \in P})>>
                   /\ v[1][1] + v[2] = SetMaxI({El(v[3])[i][1] + El(v[4])[i] : i \in P})>>
    [] o = "g_alternative" -> <<LET P == {i \in Dm(v[3]) : El(v[3])[i] # <<>>}
           IN IF P = {} THEN v[1] = <<>> /\ v[2] = 0
              ELSE /\ Cardinality(P) = 1
                   /\ \E i \in P : v[1] = El(v[3])[i] /\ v[2] = El(v[4])[i]>>
    [] o = "g_bin_packing" -> <<\A b \in Elems(v[2]) : SumOver({i \in Dm(v[2]) : El(v[2])[i] = b}, LAMBDA i : El(v[3])[i]) <= v[1]>>
    [] o = "g_bin_packing_opt" -> <<\A b \in Elems(v[2]) \ {<<>>} : SumOver({i \in Dm(v[2]) : El(v[2])[i] = b}, LAMBDA i : El(v[3])[i]) <= v[1]>>
    [] o = "g_bin_packing_capa" -> <<Elems(v[2]) \subseteq Ixs(v[1]) /\ \A b \in Ixs(v[1]) :
              SumOver({i \in Dm(v[2]) : El(v[2])[i] = b}, LAMBDA i : El(v[3])[i]) <= Get(v[1], b)>>
    [] o = "g_bin_packing_load" -> <<Elems(v[2]) \subseteq Ixs(v[1]) /\ \A b \in Ixs(v[1]) :
              SumOver({i \in Dm(v[2]) : El(v[2])[i] = b}, LAMBDA i : El(v[3])[i]) = Get(v[1], b)>>
    [] o = "g_bin_packing_load_opt" -> <<(Elems(v[2]) \ {<<>>}) \subseteq {<<i>> : i \in Ixs(v[1])} /\ \A b \in Ixs(v[1]) :
              SumOver({i \in Dm(v[2]) : El(v[2])[i] = <<b>>}, LAMBDA i : El(v[3])[i]) = Get(v[1], b)>>
    [] o = "g_knapsack" -> <<(\A i \in Dm(v[3]) : El(v[3])[i] >= 0)
              /\ v[4] = SumOver(Dm(v[3]), LAMBDA i : El(v[1])[i] * El(v[3])[i])
              /\ v[5] = SumOver(Dm(v[3]), LAMBDA i : El(v[2])[i] * El(v[3])[i])>>
    [] o = "g_geost" -> <<LET K == Cols(v[1])
           IN \A p, q \in Ixs(v[5]) : p < q => \A b \in Boxes(v[1], v[2], v[3], v[4], v[5], p, K) :
                 \A c \in Boxes(v[1], v[2], v[3], v[4], v[5], q, K) : Apart(b, c, K)>>
    [] o = "g_geost_bb" -> <<LET K == Cols(v[1])
           IN \A p \in Ixs(v[5]) : \A b \in Boxes(v[1], v[2], v[3], v[4], v[5], p, K) :
                 \A k \in 1..K : El(v[6])[k] <= b[2][k] /\ b[3][k] <= El(v[7])[k]>>
    [] OTHER -> Graph(o, v)

Words(o, v) ==
  CASE o = "g_regular" -> <<Dfa(v[2], v[3], v[4], El(v[1]))>>
    [] o = "g_regular_nfa" -> <<Nfa(v[2], v[3], v[4], El(v[1]))>>
    [] o = "g_regexp" -> <<Re(v[2], El(v[1]), 1, Len(El(v[1])) + 1)>>
    [] o = "g_cost_regular" -> <<LET c == DfaCost(v[2], v[5], v[3], v[4], El(v[1]), 0) IN c # <<>> /\ c = <<v[6]>>>>
    [] o = "g_table" -> <<\E i \in 1..Rows(v[2]) : Row(v[2], i) = El(v[1])>>
    [] o = "g_value_precede" -> <<Precedes(v[1], v[2], El(v[3]))>>
    [] o = "g_value_precede_opt" -> <<Precedes(<<v[1]>>, <<v[2]>>, El(v[3]))>>
    [] o = "g_value_precede_set" -> <<PrecedesS(v[1], v[2], El(v[3]))>>
    [] o = "g_value_precede_chain" -> <<\A k \in 2..Len(El(v[1])) : Precedes(El(v[1])[k - 1], El(v[1])[k], El(v[2]))>>
    [] o = "g_value_precede_chain_opt" -> <<\A k \in 2..Len(El(v[1])) : Precedes(<<El(v[1])[k - 1]>>, <<El(v[1])[k]>>, El(v[2]))>>
    [] o = "g_value_precede_chain_set" -> <<\A k \in 2..Len(El(v[1])) : PrecedesS(El(v[1])[k - 1], El(v[1])[k], El(v[2]))>>
    [] o = "g_seq_precede_chain" -> <<\A i \in Dm(v[1]) : El(v[1])[i] >= 2 => \E j \in 1..(i - 1) : El(v[1])[j] = El(v[1])[i] - 1>>
    [] o = "g_sliding_sum" -> <<\A i \in 1..(Len(El(v[4])) - v[3] + 1) : LET s == SeqSum(Window(El(v[4]), i, v[3])) IN v[1] <= s /\ s <= v[2]>>
    [] o = "g_sliding_among" -> <<\A i \in 1..(Len(El(v[4])) - v[3] + 1) :
            LET s == CountOf(Window(El(v[4]), i, v[3]), LAMBDA x : x \in v[5]) IN v[1] <= s /\ s <= v[2]>>
    [] o = "g_sliding_among_bool" -> <<\A i \in 1..(Len(El(v[4])) - v[3] + 1) :
            LET s == CountOf(Window(El(v[4]), i, v[3]), LAMBDA x : x = v[5]) IN v[1] <= s /\ s <= v[2]>>
    [] o = "g_lex_less" -> <<LexI(El(v[1]), El(v[2])) < 0>>
    [] o = "g_lex_lesseq" -> <<LexI(El(v[1]), El(v[2])) <= 0>>
    [] o = "g_lex_less_set" -> <<LexS(El(v[1]), El(v[2])) < 0>>
    [] o = "g_lex_lesseq_set" -> <<LexS(El(v[1]), El(v[2])) <= 0>>
    [] o = "g_lex_chain_less" -> <<\A k \in 1..(Cols(v[1]) - 1) : LexI(Col(v[1], k), Col(v[1], k + 1)) < 0>>
    [] o = "g_lex_chain_lesseq" -> <<\A k \in 1..(Cols(v[1]) - 1) : LexI(Col(v[1], k), Col(v[1], k + 1)) <= 0>>
    [] o = "g_lex_chain_greater" -> <<\A k \in 1..(Cols(v[1]) - 1) : LexI(Col(v[1], k), Col(v[1], k + 1)) > 0>>
    [] o = "g_lex_chain_greatereq" -> <<\A k \in 1..(Cols(v[1]) - 1) : LexI(Col(v[1], k), Col(v[1], k + 1)) >= 0>>
    [] o = "g_orbitope" -> <<\A i \in 1..Rows(v[1]) : LET s == SeqSum(Row(v[1], i)) IN IF v[2] = 1 THEN s = 1 ELSE IF v[2] = 2 THEN s <= 1 ELSE TRUE>>
    [] o = "g_lex2" -> <<(\A k \in 1..(Cols(v[1]) - 1) : LexI(Col(v[1], k), Col(v[1], k + 1)) <= 0)
                          /\ \A k \in 1..(Rows(v[1]) - 1) : LexI(Row(v[1], k), Row(v[1], k + 1)) <= 0>>
    [] o = "g_lex2_strict" -> <<(\A k \in 1..(Cols(v[1]) - 1) : LexI(Col(v[1], k), Col(v[1], k + 1)) < 0)
                          /\ \A k \in 1..(Rows(v[1]) - 1) : LexI(Row(v[1], k), Row(v[1], k + 1)) < 0>>
    [] o = "g_var_perm_sym" -> <<PermLeast(El(v[1]), {Row(v[2], i) : i \in 1..Rows(v[2])})>>
    [] o = "g_var_sqr_sym" -> <<LET n == Rows(v[1])  x == El(v[1])  at(i, j) == (i - 1) * n + j
                                   im(f(_, _)) == [k \in 1..(n * n) |-> x[f(((k - 1) \div n) + 1, ((k - 1) % n) + 1)]]
                               IN /\ LexCmp(x, im(LAMBDA i, j : at(n - j + 1, i))) <= 0
                                  /\ LexCmp(x, im(LAMBDA i, j : at(n - i + 1, n - j + 1))) <= 0
                                  /\ LexCmp(x, im(LAMBDA i, j : at(j, n - i + 1))) <= 0
                                  /\ LexCmp(x, im(LAMBDA i, j : at(n - i + 1, j))) <= 0
                                  /\ LexCmp(x, im(LAMBDA i, j : at(i, n - j + 1))) <= 0
                                  /\ LexCmp(x, im(LAMBDA i, j : at(n - j + 1, n - i + 1))) <= 0
                                  /\ LexCmp(x, im(LAMBDA i, j : at(j, i))) <= 0>>
    [] o = "g_write" -> IF v[2] \notin Ixs(v[1]) THEN <<>>
                        ELSE <<[ix |-> v[1].ix, el |-> [v[1].el EXCEPT ![v[2] - Lo(v[1]) + 1] = v[3]]]>>
    [] o = "g_writes_seq" -> <<[ix |-> v[1].ix, el |-> [k \in Dm(v[1]) |->
                LET W == {j \in Dm(v[2]) : El(v[2])[j] - Lo(v[1]) + 1 = k}
                IN IF W = {} THEN El(v[1])[k] ELSE El(v[3])[SetMaxI(W)]]]>>
    [] o = "g_writes_rel" -> <<\* simultaneous: two different values at one place is impossible
                (\A j \in Dm(v[2]) : El(v[2])[j] \in Ixs(v[1]) /\ Get(v[4], El(v[2])[j]) = El(v[3])[j])
                /\ \A i \in Ixs(v[1]) : i \notin Elems(v[2]) => Get(v[4], i) = Get(v[1], i)>>
    [] OTHER -> Sched(o, v)

Global(o, v) ==
  CASE o = "g_num" -> <<[ix |-> v[1].ix, el |-> [i \in Dm(v[1]) |-> B2I(El(v[1])[i])]]>>   \* Booleans ordered false < true
    [] o = "g_alldiff" -> <<AllDiff(El(v[1]))>>
    [] o = "g_alldiff_opt" -> <<AllDiff(Vals(El(v[1])))>>
    [] o = "g_alldiff_except" -> <<AllDiff(SelectSeq(El(v[1]), LAMBDA x : x \notin v[2]))>>
    [] o = "g_symalldiff" -> <<Elems(v[1]) \subseteq Ixs(v[1]) /\ AllDiff(El(v[1])) /\ \A i \in Ixs(v[1]) : Get(v[1], Get(v[1], i)) = i>>
    [] o = "g_alldisjoint" -> <<\A i, j \in Dm(v[1]) : i < j => El(v[1])[i] \cap El(v[1])[j] = {}>>
    [] o = "g_allequal" -> <<Cardinality(Elems(v[1])) <= 1>>
    [] o = "g_among" -> <<CountOf(El(v[1]), LAMBDA x : x \in v[2])>>
    [] o = "g_count" -> <<CountOf(El(v[1]), LAMBDA x : x = v[2])>>
    [] o = "g_count_opt" -> <<CountOf(El(v[1]), LAMBDA x : x = <<v[2]>>)>>
    [] o = "g_at_most1" -> <<\A i, j \in Dm(v[1]) : i < j => Cardinality(El(v[1])[i] \cap El(v[1])[j]) <= 1>>
    [] o = "g_argmin" -> ArgBest(v[1], Somes(El(v[1])), LtI)
    [] o = "g_argmax" -> ArgBest(v[1], Somes(El(v[1])), GtI)
    [] o = "g_argmin_opt" -> ArgBest(v[1], El(v[1]), LtI)
    [] o = "g_argmax_opt" -> ArgBest(v[1], El(v[1]), GtI)
    [] o = "g_argmin_weak" -> <<ArgBest(v[1], El(v[1]), LtI)>>
    [] o = "g_argmax_weak" -> <<ArgBest(v[1], El(v[1]), GtI)>>
    [] o = "g_argval" -> LET c == {i \in Ixs(v[1]) : Get(v[1], i) = v[2]} IN IF c = {} THEN <<>> ELSE <<SetMinI(c)>>
    [] o = "g_argval_weak" -> <<LET c == {i \in Ixs(v[1]) : Get(v[1], i) = v[2]} IN IF c = {} THEN <<>> ELSE <<SetMinI(c)>>>>
    [] o = "g_argsort" -> <<Arr(SortSeq([i \in Dm(v[1]) |-> Lo(v[1]) + i - 1],
                              LAMBDA a, b : LET x == Get(v[1], a)  y == Get(v[1], b) IN x < y \/ (x = y /\ a < b)))>>
    [] o = "g_sort" -> <<Arr(SortSeqI(El(v[1])))>>
    [] o = "g_circuit" -> <<IsCircuitOn([i \in Ixs(v[1]) |-> Get(v[1], i)], Ixs(v[1]))>>
    [] o = "g_circuit_opt" -> <<LET N == {i \in Ixs(v[1]) : Get(v[1], i) # <<>>}
                               IN IsCircuitOn([i \in N |-> Get(v[1], i)[1]], N)>>
    [] o = "g_subcircuit" -> <<Elems(v[1]) \subseteq Ixs(v[1]) /\ AllDiff(El(v[1]))
                               /\ LET N == {i \in Ixs(v[1]) : Get(v[1], i) # i}
                                  IN IsCircuitOn([i \in N |-> Get(v[1], i)], N)>>
    [] o = "g_inc" -> <<Asc(El(v[1]), LAMBDA a, b : a <= b)>>
    [] o = "g_sinc" -> <<Asc(El(v[1]), LAMBDA a, b : a < b)>>
    [] o = "g_dec" -> <<Asc(El(v[1]), LAMBDA a, b : a >= b)>>
    [] o = "g_sdec" -> <<Asc(El(v[1]), LAMBDA a, b : a > b)>>
    [] o = "g_inc_opt" -> <<Asc(Vals(El(v[1])), LAMBDA a, b : a <= b)>>
    [] o = "g_sinc_opt" -> <<Asc(Vals(El(v[1])), LAMBDA a, b : a < b)>>
    [] o = "g_dec_opt" -> <<Asc(Vals(El(v[1])), LAMBDA a, b : a >= b)>>
    [] o = "g_sdec_opt" -> <<Asc(Vals(El(v[1])), LAMBDA a, b : a > b)>>
    [] o = "g_inc_set" -> <<Asc(El(v[1]), LAMBDA a, b : SetCmp(a, b) <= 0)>>
    [] o = "g_sinc_set" -> <<Asc(El(v[1]), LAMBDA a, b : SetCmp(a, b) < 0)>>
    [] o = "g_dec_set" -> <<Asc(El(v[1]), LAMBDA a, b : SetCmp(a, b) >= 0)>>
    [] o = "g_sdec_set" -> <<Asc(El(v[1]), LAMBDA a, b : SetCmp(a, b) > 0)>>
    [] o = "g_disjoint" -> <<v[1] \cap v[2] = {}>>
    [] o = "g_distribute" -> <<[ix |-> v[1].ix, el |-> [k \in Dm(v[1]) |-> CountOf(El(v[2]), LAMBDA x : x = El(v[1])[k])]]>>
    [] o = "g_distribute_opt" -> <<[ix |-> v[1].ix, el |-> [k \in Dm(v[1]) |-> CountOf(El(v[2]), LAMBDA x : x = <<El(v[1])[k]>>)]]>>
    [] o = "g_distribute_set" -> <<[ix |-> v[1].ix, el |-> [k \in Dm(v[1]) |-> CountOf(El(v[2]), LAMBDA x : El(v[1])[k] \in x)]]>>
    [] o = "g_closed" -> <<Elems(v[1]) \subseteq Elems(v[2])>>
    [] o = "g_closed_opt" -> <<(Elems(v[1]) \ {<<>>}) \subseteq {<<x>> : x \in Elems(v[2])}>>
    [] o = "g_between" -> <<\A k \in Dm(v[1]) : El(v[2])[k] <= El(v[1])[k] /\ El(v[1])[k] <= El(v[3])[k]>>
    [] o = "g_int_set_channel" -> <<Elems(v[1]) \subseteq Ixs(v[2]) /\ (\A s \in Elems(v[2]) : s \subseteq Ixs(v[1]))
                               /\ \A i \in Ixs(v[1]), j \in Ixs(v[2]) : (Get(v[1], i) = j) <=> (i \in Get(v[2], j))>>
    [] o = "g_inverse" -> <<Elems(v[1]) \subseteq Ixs(v[2]) /\ Elems(v[2]) \subseteq Ixs(v[1])
                            /\ (\A i \in Ixs(v[1]) : Get(v[2], Get(v[1], i)) = i)
                            /\ \A j \in Ixs(v[2]) : Get(v[1], Get(v[2], j)) = j>>
    [] o = "g_inverse_in_range" -> <<(\A i \in Ixs(v[1]) : Get(v[1], i) \in Ixs(v[2]) => Get(v[2], Get(v[1], i)) = i)
                                  /\ \A j \in Ixs(v[2]) : Get(v[2], j) \in Ixs(v[1]) => Get(v[1], Get(v[2], j)) = j>>
    [] o = "g_inverse_set" -> <<(\A s \in Elems(v[1]) : s \subseteq Ixs(v[2])) /\ (\A s \in Elems(v[2]) : s \subseteq Ixs(v[1]))
                            /\ \A i \in Ixs(v[1]), j \in Ixs(v[2]) : (j \in Get(v[1], i)) <=> (i \in Get(v[2], j))>>
    [] o = "g_link" -> <<(\A x \in v[1] : x \in Ixs(v[2])) /\ \A i \in Ixs(v[2]) : (i \in v[1]) <=> Get(v[2], i)>>
    [] o = "g_member" -> <<v[2] \in Elems(v[1])>>
    [] o = "g_nvalue" -> <<Cardinality(Elems(v[1]))>>
    [] o = "g_nvalue_opt" -> <<Cardinality(Elems(v[1]) \ {<<>>})>>
    [] o = "g_partition" -> <<(\A i, j \in Dm(v[1]) : i < j => El(v[1])[i] \cap El(v[1])[j] = {}) /\ UNION Elems(v[1]) = v[2]>>
    [] o = "g_range" -> <<{Get(v[1], i) : i \in v[2]}>>
    [] o = "g_roots" -> <<{i \in Ixs(v[1]) : Get(v[1], i) \in v[2]}>>
    [] o = "g_sum_pred" -> IF v[1] \notin Ixs(v[2]) THEN <<>> ELSE <<SumOver(Get(v[2], v[1]), LAMBDA k : Get(v[3], k))>>
    [] o = "g_sum_set" -> <<SumOver({k \in Dm(v[1]) : El(v[1])[k] \in v[3]}, LAMBDA k : El(v[2])[k])>>
    [] OTHER -> Words(o, v)
=============================================================================
