------------------------------- MODULE Rat -------------------------------
(* Exact arithmetic helpers: gcd, rationals <<n, d>> and rational points <<x, y, q>> (meaning x/q, y/q). *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))

RECURSIVE GcdSeq(_)
GcdSeq(s) == IF s = <<>> THEN 0 ELSE Gcd(GcdSeq(Tail(s)), Head(s))

\* Divide a tuple of numerators with positive common denominator in last place by the common factor
NormSeq(s) ==
  LET g == GcdSeq(s)
      sg == Sgn(s[Len(s)])
  IN  IF g = 0 THEN s ELSE [i \in 1..Len(s) |-> (sg * s[i]) \div g]

FitsSeq(s, lim) == \A i \in 1..Len(s) : Abs(s[i]) <= lim

\* Rationals
R(n, d) == NormSeq(<<n, d>>)
RAdd(a, b) == NormSeq(<<a[1]*b[2] + b[1]*a[2], a[2]*b[2]>>)
RSub(a, b) == NormSeq(<<a[1]*b[2] - b[1]*a[2], a[2]*b[2]>>)
RMul(a, b) == NormSeq(<<a[1]*b[1], a[2]*b[2]>>)
RDiv(a, b) == NormSeq(IF b[1] < 0 THEN <<-(a[1]*b[2]), -(a[2]*b[1])>> ELSE <<a[1]*b[2], a[2]*b[1]>>)
RNeg(a) == <<-a[1], a[2]>>
RLt(a, b) == a[1]*b[2] < b[1]*a[2]
RLe(a, b) == a[1]*b[2] <= b[1]*a[2]
REq(a, b) == a[1]*b[2] = b[1]*a[2]
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a

\* Rational points (also vectors)
Pt(x, y) == <<x, y, 1>>
PNorm(p) == NormSeq(p)
PAdd(p, v) == NormSeq(<<p[1]*v[3] + v[1]*p[3], p[2]*v[3] + v[2]*p[3], p[3]*v[3]>>)
PSub(p, v) == NormSeq(<<p[1]*v[3] - v[1]*p[3], p[2]*v[3] - v[2]*p[3], p[3]*v[3]>>)
PNeg(p) == <<-p[1], -p[2], p[3]>>
PScale(p, r) == NormSeq(IF r[2] < 0 THEN <<-p[1]*r[1], -p[2]*r[1], -p[3]*r[2]>> ELSE <<p[1]*r[1], p[2]*r[1], p[3]*r[2]>>)
PCross(p, v) == R(p[1]*v[2] - p[2]*v[1], p[3]*v[3])
PDot(p, v) == R(p[1]*v[1] + p[2]*v[2], p[3]*v[3])
==========================================================================
