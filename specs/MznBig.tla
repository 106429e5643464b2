------------------------------- MODULE MznBig -------------------------------
(* Exact integer arithmetic over unbounded integers (TLC's own integers have 32 bits), used as the meaning of
   MiniZinc's 64-bit arithmetic: a natural number is a sequence of base-10000 digits, least significant first and
   without leading zeros; an integer is [s |-> 1 or -1, d |-> digits] with s = 1 for zero. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
B == 10000
RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))
Dig(a, i) == IF i \in DOMAIN a THEN a[i] ELSE 0
RECURSIVE NAddR(_, _, _, _)
NAddR(a, b, i, c) == IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                     ELSE LET t == Dig(a, i) + Dig(b, i) + c IN <<t % B>> \o NAddR(a, b, i + 1, t \div B)
NAdd(a, b) == NAddR(a, b, 1, 0)
RECURSIVE NSubR(_, _, _, _)
NSubR(a, b, i, c) == IF i > Len(a) THEN <<>>
                     ELSE LET t == a[i] - Dig(b, i) - c IN IF t < 0 THEN <<t + B>> \o NSubR(a, b, i + 1, 1) ELSE <<t>> \o NSubR(a, b, i + 1, 0)
NSub(a, b) == Trim(NSubR(a, b, 1, 0))       \* a >= b
RECURSIVE NCmpR(_, _, _)
NCmpR(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE NCmpR(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpR(a, b, Len(a))
RECURSIVE NDigMul(_, _, _, _)
NDigMul(a, k, i, c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                       ELSE LET t == a[i] * k + c IN <<t % B>> \o NDigMul(a, k, i + 1, t \div B)
RECURSIVE NMulR(_, _, _)
NMulR(a, b, i) == IF i > Len(b) THEN <<>> ELSE NAdd(Trim(NDigMul(a, b[i], 1, 0)), LET r == NMulR(a, b, i + 1) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)
NMul(a, b) == Trim(NMulR(a, b, 1))
RECURSIVE QDigit(_, _, _, _)     \* the largest k in lo..hi with b * k <= r, when b * lo <= r
QDigit(r, b, lo, hi) == IF lo = hi THEN lo
                        ELSE LET m == (lo + hi + 1) \div 2
                             IN  IF NCmp(Trim(NDigMul(b, m, 1, 0)), r) <= 0 THEN QDigit(r, b, m, hi) ELSE QDigit(r, b, lo, m - 1)
RECURSIVE NDivR(_, _, _, _)      \* from the most significant digit: [q, r]
NDivR(a, b, i, r) == IF i = 0 THEN [q |-> <<>>, r |-> r]
                     ELSE LET r1 == Trim(<<a[i]>> \o r)
                              k == QDigit(r1, b, 0, B - 1)
                              z == NDivR(a, b, i - 1, NSub(r1, Trim(NDigMul(b, k, 1, 0))))
                          IN  [q |-> z.q \o <<k>>, r |-> z.r]
NDiv(a, b) == LET z == NDivR(a, b, Len(a), <<>>) IN [q |-> Trim(z.q), r |-> z.r]

Mk(s, d) == IF d = <<>> THEN [s |-> 1, d |-> <<>>] ELSE [s |-> s, d |-> d]
Zero == Mk(1, <<>>)
RECURSIVE NOf(_)
NOf(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o NOf(n \div B)
Of(n) == IF n < 0 THEN Mk(-1, NOf(-n)) ELSE Mk(1, NOf(n))
One == Of(1)
Neg(x) == Mk(-x.s, x.d)
AbsB(x) == Mk(1, x.d)
Add(x, y) == IF x.s = y.s THEN Mk(x.s, NAdd(x.d, y.d))
             ELSE IF NCmp(x.d, y.d) >= 0 THEN Mk(x.s, NSub(x.d, y.d)) ELSE Mk(y.s, NSub(y.d, x.d))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Mk(x.s * y.s, NMul(x.d, y.d))
Quot(x, y) == Mk(x.s * y.s, NDiv(x.d, y.d).q)       \* rounds towards zero
Rem(x, y) == Mk(x.s, NDiv(x.d, y.d).r)              \* sign of the dividend
Le(x, y) == IF x.s # y.s THEN x.s < y.s ELSE IF x.s = 1 THEN NCmp(x.d, y.d) <= 0 ELSE NCmp(x.d, y.d) >= 0
Lt(x, y) == Le(x, y) /\ x # y
MinB(x, y) == IF Le(x, y) THEN x ELSE y
MaxB(x, y) == IF Le(x, y) THEN y ELSE x
RECURSIVE PowB(_, _)
PowB(x, n) == IF n = 0 THEN One ELSE Mul(x, PowB(x, n - 1))
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN One ELSE Mul(Of(2), P2(n - 1))
Max64 == Sub(P2(63), One)
Min64 == Neg(P2(63))
In64(x) == Le(Min64, x) /\ Le(x, Max64)
Safe == P2(60)      \* operations whose operands and results are below this must succeed
IsSafe(x) == NCmp(x.d, Safe.d) < 0

\* sets as sequences of disjoint ordered ranges <<lo, hi>>
RNorm(l, h) == IF Le(l, h) THEN <<<<l, h>>>> ELSE <<>>
InR(x, s) == \E i \in DOMAIN s : Le(s[i][1], x) /\ Le(x, s[i][2])
RECURSIVE CardR(_, _)
CardR(s, i) == IF i > Len(s) THEN Zero ELSE Add(Add(Sub(s[i][2], s[i][1]), One), CardR(s, i + 1))
RInter(s, t) == FlattenSeq([i \in DOMAIN s |-> FlattenSeq([j \in DOMAIN t |-> RNorm(MaxB(s[i][1], t[j][1]), MinB(s[i][2], t[j][2]))])])
RECURSIVE RDiff(_, _, _)
RDiff(s, t, j) == IF j > Len(t) THEN s
                  ELSE RDiff(FlattenSeq([i \in DOMAIN s |-> RNorm(s[i][1], MinB(s[i][2], Sub(t[j][1], One))) \o RNorm(MaxB(s[i][1], Add(t[j][2], One)), s[i][2])]), t, j + 1)
ROrder(s) == SortSeq(s, LAMBDA a, b : Lt(a[1], b[1]))
RUnion(s, t) == ROrder(s \o RDiff(t, s, 1))      \* ordered and disjoint (adjacent ranges may remain)

---------------------------------------------------------------------------
(* Evaluation of an expression: [v, und, safe].  und: not defined (division by zero, minimum of an empty set);
   safe: every number met is below 2^60 in magnitude, so that an error may not be reported. *)
V(v, safe) == [v |-> v, und |-> FALSE, safe |-> safe]
Und == [v |-> Zero, und |-> TRUE, safe |-> TRUE]
RECURSIVE Ev(_), EvS(_), SumAll(_, _), ProdAll(_, _), MinAll(_, _), MaxAll(_, _)
SumAll(s, i) == IF i > Len(s) THEN Zero ELSE Add(s[i].v, SumAll(s, i + 1))
ProdAll(s, i) == IF i > Len(s) THEN One ELSE Mul(s[i].v, ProdAll(s, i + 1))
MinAll(s, i) == IF i = Len(s) THEN s[i].v ELSE MinB(s[i].v, MinAll(s, i + 1))
MaxAll(s, i) == IF i = Len(s) THEN s[i].v ELSE MaxB(s[i].v, MaxAll(s, i + 1))
\* partial sums and products in any order stay below 2^60 if those of the magnitudes do
SumMag(s) == SumAll([i \in DOMAIN s |-> [v |-> AbsB(s[i].v)]], 1)
ProdMag(s) == ProdAll([i \in DOMAIN s |-> [v |-> MaxB(One, AbsB(s[i].v))]], 1)
EvS(e) ==      \* sets: [v |-> ranges, und, safe]
  CASE e.k = "range" -> LET a == Ev(e.a[1])
                            b == Ev(e.a[2])
                        IN  IF a.und \/ b.und THEN Und ELSE V(RNorm(a.v, b.v), a.safe /\ b.safe)
    [] OTHER -> LET a == EvS(e.a[1])
                    b == EvS(e.a[2])
                IN  IF a.und \/ b.und THEN Und
                    ELSE V(CASE e.k = "union" -> RUnion(a.v, b.v) [] e.k = "inter" -> ROrder(RInter(a.v, b.v)) [] OTHER -> RDiff(a.v, b.v, 1), a.safe /\ b.safe)
Ev(e) ==
  IF e.k = "c" THEN V(Mk(e.v.s, e.v.d), IsSafe(Mk(e.v.s, e.v.d)))
  ELSE IF e.k \in {"card", "smin", "smax"}
  THEN LET s == EvS(e.a[1])
       IN  IF s.und \/ (e.k # "card" /\ s.v = <<>>) THEN Und
           ELSE CASE e.k = "card" -> V(CardR(s.v, 1), s.safe /\ IsSafe(CardR(s.v, 1)))
                  [] e.k = "smin" -> V(s.v[1][1], s.safe) [] OTHER -> V(s.v[Len(s.v)][2], s.safe)
  ELSE IF e.k = "in"
  THEN LET x == Ev(e.a[1])
           s == EvS(e.a[2])
       IN  IF x.und \/ s.und THEN Und ELSE V(IF InR(x.v, s.v) THEN One ELSE Zero, x.safe /\ s.safe)
  ELSE LET r == [i \in DOMAIN e.a |-> Ev(e.a[i])]
           x == r[1].v
           y == r[2].v
           safe == \A i \in DOMAIN r : r[i].safe
           b(t) == V(IF t THEN One ELSE Zero, safe)
           n(v) == V(v, safe /\ IsSafe(v))
       IN  IF \E i \in DOMAIN r : r[i].und THEN Und
           ELSE CASE e.k = "add" -> n(Add(x, y)) [] e.k = "sub" -> n(Sub(x, y)) [] e.k = "mul" -> n(Mul(x, y))
                  [] e.k = "div" -> (IF y = Zero THEN Und ELSE n(Quot(x, y))) [] e.k = "mod" -> (IF y = Zero THEN Und ELSE n(Rem(x, y)))
                  [] e.k = "neg" -> n(Neg(x)) [] e.k = "abs" -> n(AbsB(x)) [] e.k = "min" -> n(MinB(x, y)) [] e.k = "max" -> n(MaxB(x, y))
                  [] e.k = "pow" -> LET p == PowB(x, e.n) IN V(p, safe /\ IsSafe(p) /\ IsSafe(PowB(x, e.n + 1)))
                  [] e.k = "sum" -> V(SumAll(r, 1), safe /\ IsSafe(SumMag(r))) [] e.k = "prod" -> V(ProdAll(r, 1), safe /\ IsSafe(ProdMag(r)))
                  [] e.k = "amin" -> n(MinAll(r, 1)) [] e.k = "amax" -> n(MaxAll(r, 1))
                  [] e.k = "lt" -> b(Lt(x, y)) [] e.k = "le" -> b(Le(x, y)) [] e.k = "eq" -> b(x = y)
                  [] OTHER -> n(x)

---------------------------------------------------------------------------
(* Bounds of an expression over variables with interval domains, each used once: the exact least and greatest
   value of the expression lie between the reported bounds. [lo, hi] as exact numbers. *)
RECURSIVE Bnd(_)
MinOf(S) == CHOOSE x \in S : \A y \in S : Le(x, y)
MaxOf(S) == CHOOSE x \in S : \A y \in S : Le(y, x)
Bnd(e) ==
  CASE e.k = "c" -> <<Mk(e.v.s, e.v.d), Mk(e.v.s, e.v.d)>>
    [] e.k = "var" -> <<Mk(e.l.s, e.l.d), Mk(e.h.s, e.h.d)>>
    [] OTHER -> LET r == [i \in DOMAIN e.a |-> Bnd(e.a[i])]
                    x == r[1]
                    y == r[2]
                    P == {Mul(x[i], y[j]) : i \in 1..2, j \in 1..2}
                IN  CASE e.k = "add" -> <<Add(x[1], y[1]), Add(x[2], y[2])>>
                      [] e.k = "sub" -> <<Sub(x[1], y[2]), Sub(x[2], y[1])>>
                      [] e.k = "mul" -> <<MinOf(P), MaxOf(P)>>
                      [] e.k = "neg" -> <<Neg(x[2]), Neg(x[1])>>
                      [] e.k = "abs" -> <<IF Le(Zero, x[1]) THEN x[1] ELSE IF Le(x[2], Zero) THEN Neg(x[2]) ELSE Zero, MaxOf({AbsB(x[1]), AbsB(x[2])})>>
                      [] e.k = "min" -> <<MinB(x[1], y[1]), MinB(x[2], y[2])>>
                      [] e.k = "max" -> <<MaxB(x[1], y[1]), MaxB(x[2], y[2])>>
                      [] OTHER -> x
=============================================================================
