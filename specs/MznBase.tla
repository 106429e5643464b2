------------------------------ MODULE MznBase -------------------------------
(* Arithmetic, order and array helpers shared by the modules of the specification. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

\* ---------------------------------------------------------------- arithmetic
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
TDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))       \* truncation toward zero
TMod(a, b) == a - b * TDiv(a, b)
RECURSIVE PowN(_, _)
PowN(a, n) == IF n = 0 THEN 1 ELSE a * PowN(a, n - 1)
Pow(a, n) == IF n >= 0 THEN <<PowN(a, n)>>
             ELSE IF a = 0 THEN <<>> ELSE IF a = 1 THEN <<1>>
             ELSE IF a = -1 THEN <<IF (-n) % 2 = 0 THEN 1 ELSE -1>> ELSE <<0>>
B2I(b) == IF b THEN 1 ELSE 0
SeqSum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
SeqProd(s) == FoldLeft(LAMBDA a, x : a * x, 1, s)
SetSum(S) == FoldSet(LAMBDA a, x : a + x, 0, S)
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
SeqMin(s) == FoldLeft(MinI, s[1], s)
SeqMax(s) == FoldLeft(MaxI, s[1], s)
CountIf(s, P(_)) == FoldLeft(LAMBDA a, x : a + (IF P(x) THEN 1 ELSE 0), 0, s)
Occ(s, v) == FoldLeft(LAMBDA a, x : a + (IF x = v THEN 1 ELSE 0), 0, s)
SetToSorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
SetMinI(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMaxI(S) == CHOOSE x \in S : \A y \in S : x >= y

\* lexicographic comparison of integer sequences: -1, 0, 1
RECURSIVE LexCmp(_, _)
LexCmp(s, t) ==
  IF s = <<>> THEN (IF t = <<>> THEN 0 ELSE -1)
  ELSE IF t = <<>> THEN 1
  ELSE IF Head(s) < Head(t) THEN -1
  ELSE IF Head(s) > Head(t) THEN 1
  ELSE LexCmp(Tail(s), Tail(t))

\* ---------------------------------------------------------------- arrays
Arr(s) == [ix |-> <<<<1, Len(s)>>>>, el |-> s]
DimLen(d) == IF d[2] < d[1] THEN 0 ELSE d[2] - d[1] + 1
InIx(ix, idx) == \A k \in DOMAIN ix : ix[k][1] <= idx[k] /\ idx[k] <= ix[k][2]
RECURSIVE Off(_, _, _)
Off(ix, idx, k) == IF k = 0 THEN 0
                   ELSE Off(ix, idx, k - 1) * DimLen(ix[k]) + (idx[k] - ix[k][1])
At(a, idx) == a.el[Off(a.ix, idx, Len(idx)) + 1]
RECURSIVE Tuples(_)
\* all index tuples of a product of ranges, row-major
Tuples(ix) ==
  IF ix = <<>> THEN <<<<>>>>
  ELSE LET rest == Tuples(Tail(ix))
           n == DimLen(Head(ix))
       IN  FlattenSeq([i \in 1..n |-> [j \in 1..Len(rest) |-> <<Head(ix)[1] + i - 1>> \o rest[j]]])
=============================================================================
