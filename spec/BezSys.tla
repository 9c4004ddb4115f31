------------------------------- MODULE BezSys -------------------------------
(* Lists of control points (curves) as objects.  A curve is [q, p, k, cl, src, sh]: whole numbers over the common
   denominator q; p is a sequence of <<cx, cy, dlx, dly, drx, dry>>, k their kinds, cl whether it is closed.
   Ghost: src says for each segment which original segment (four points over a denominator) and which part of it, in
   which direction, it should trace.  sh identifies curves that may share point objects in the program. *)
EXTENDS Rat, TLC, Json, CSV, FiniteSets

CONSTANTS Cs, Ds,      \* coordinates of centres and of handle vectors
          Kinds, Lens, \* kinds, and numbers of control points
          Ts,          \* split parameters <<n, d>>
          Maps,        \* affine maps <<a, b, tx, c, d, ty, q>>
          Warps,       \* non-linear maps <<a, b, c>>: (x, y) -> (x + a y^2 + b x y, y + c x^2)
          Steps,       \* numbers of steps for flattening
          MaxObjs, Depth, LimN, LimQ, Sample

VARIABLES cv, hist
vars == <<cv, hist>>

Curve(q, p, k, cl, src, sh) == [q |-> q, p |-> p, k |-> k, cl |-> cl, src |-> src, sh |-> sh]
Flat(p) == p[1] \o p[2] \o p[3] \o p[4]

\* lowest terms, over the whole list
RECURSIVE GcdAll(_, _)
GcdAll(g, ps) == IF ps = <<>> \/ g = 1 THEN g ELSE GcdAll(Gcd(g, GcdSeq(Head(ps))), Tail(ps))
Reduce(c) == LET g == GcdAll(c.q, c.p) IN
             IF g <= 1 THEN c
             ELSE [c EXCEPT !.q = @ \div g, !.p = [i \in 1..Len(@) |-> [j \in 1..6 |-> @[i][j] \div g]]]
Fits(c) == c.q <= LimQ /\ \A i \in 1..Len(c.p) : \A j \in 1..6 : Abs(c.p[i][j]) <= LimN

N(c) == Len(c.p)
Segs(c) == IF c.cl THEN N(c) ELSE N(c) - 1
Nx(c, i) == (i % N(c)) + 1
\* the four points of segment i, over c.q
Quad(c, i) == LET a == c.p[i] b == c.p[Nx(c, i)] IN
   <<<<a[1], a[2]>>, <<a[1] + a[5], a[2] + a[6]>>, <<b[1] + b[3], b[2] + b[4]>>, <<b[1], b[2]>>>>
\* the cubic with control points p[1..4] at n/d, times d^3
Cub(p, n, d) == LET s == d - n IN
   [k \in 1..2 |-> s*s*s*p[1][k] + 3*s*s*n*p[2][k] + 3*s*n*n*p[3][k] + n*n*n*p[4][k]]

Whole(c) == [i \in 1..Segs(c) |-> [q |-> c.q, p |-> Quad(c, i), a |-> <<0, 1>>, b |-> <<1, 1>>]]
Own(c) == [c EXCEPT !.src = Whole(c)]

Init == cv = <<>> /\ hist = <<>>
Running == Len(hist) < Depth
Ids == 1..Len(cv)
\* (mentioning the state keeps TLC from evaluating the random choice once and for all)
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
Show(c) == [q |-> c.q, p |-> c.p, k |-> c.k, cl |-> c.cl]
Step(op, a, r) == hist' = Append(hist, [op |-> op, a |-> a, r |-> r, o |-> [i \in 1..Len(cv') |-> Show(cv'[i])]])
New(op, a, c) == /\ Running /\ Len(cv) < MaxObjs
                 /\ cv' = Append(cv, Reduce(c)) /\ Fits(Reduce(c)) /\ Step(op, a, <<>>)
Change(op, a, i, c) == Running /\ cv' = [cv EXCEPT ![i] = Reduce(c)] /\ Fits(Reduce(c)) /\ Step(op, a, <<>>)
Ask(op, a, r) == Running /\ UNCHANGED cv /\ Step(op, a, r)
Fresh == Len(cv) + 1

\* (the argument keeps TLC from evaluating the random choice once and for all)
RandCp(t) == <<RandomElement(Cs), RandomElement(Cs), RandomElement(Ds), RandomElement(Ds), RandomElement(Ds), RandomElement(Ds)>>
Smooth(t) == LET x == RandomElement(Ds) y == RandomElement(Ds) IN <<RandomElement(Cs), RandomElement(Cs), -x, -y, x, y>>
RECURSIVE RandCps(_)
RandCps(n) == IF n = 0 THEN <<>> ELSE <<IF RandomElement({TRUE, FALSE}) THEN RandCp(n) ELSE Smooth(n)>> \o RandCps(n - 1)
RECURSIVE RandKinds(_)
RandKinds(n) == IF n = 0 THEN <<>> ELSE <<RandomElement(Kinds)>> \o RandKinds(n - 1)
Lits(n) == IF Sample THEN {RandCps(n)}
           ELSE [1..n -> {<<x, y, u, v, -v, u>> : x, y \in Cs, u, v \in Ds}]
KindsOf(n) == IF Sample THEN {RandKinds(n)} ELSE {[i \in 1..n |-> k] : k \in Kinds}
NewCurve == \E n \in Lens, cl \in BOOLEAN : \E p \in Lits(n), k \in KindsOf(n) :
   /\ (cl \/ n >= 2)
   /\ (Sample \/ cv = <<>>)
   /\ New("curve", <<>>, Own(Curve(1, p, k, cl, <<>>, Fresh)))

\* split segment s at t = n/d: three control points take the place of its two
SoftKind(k) == IF k = "very-smooth" THEN "smooth" ELSE k
Split(c, s, t) ==
  LET n == t[1]  d == t[2]  m == d - n  Q == Quad(c, s)
      e(k) == d*d*d                                                  \* new denominators
      A == Q[1] B == Q[2] C == Q[3] D == Q[4]
      ab(k) == m*A[k] + n*B[k]      bc(k) == m*B[k] + n*C[k]      cd(k) == m*C[k] + n*D[k]        \* times d
      abc(k) == m*ab(k) + n*bc(k)   bcd(k) == m*bc(k) + n*cd(k)                                   \* times d^2
      M(k) == m*abc(k) + n*bcd(k)                                                                 \* times d^3
      L == c.p[s]  Rr == c.p[Nx(c, s)]
      left == <<e(0)*L[1], e(0)*L[2], e(0)*L[3], e(0)*L[4], d*d*ab(1) - e(0)*A[1], d*d*ab(2) - e(0)*A[2]>>
      mid == <<M(1), M(2), d*abc(1) - M(1), d*abc(2) - M(2), d*bcd(1) - M(1), d*bcd(2) - M(2)>>
      right == <<e(0)*Rr[1], e(0)*Rr[2], d*d*cd(1) - e(0)*D[1], d*d*cd(2) - e(0)*D[2], e(0)*Rr[5], e(0)*Rr[6]>>
      all == [i \in 1..N(c) |-> [j \in 1..6 |-> e(0)*c.p[i][j]]]
      p1 == [all EXCEPT ![s] = left]
      \* in a closed curve of one point both ends are the same control point
      p2 == IF N(c) = 1 THEN <<[j \in 1..6 |-> IF j \in {3, 4} THEN right[j] ELSE left[j]]>>
            ELSE [p1 EXCEPT ![Nx(c, s)] = right]
      k2 == [c.k EXCEPT ![s] = SoftKind(@), ![Nx(c, s)] = SoftKind(@)]
      g == c.src[s]
      \* the parameter in the source segment
      tm == RAdd(g.a, RMul(R(n, d), RSub(g.b, g.a)))
      src == SubSeq(c.src, 1, s - 1) \o <<[g EXCEPT !.b = tm], [g EXCEPT !.a = tm]>> \o SubSeq(c.src, s + 1, Len(c.src))
  IN Curve(c.q * e(0), SubSeq(p2, 1, s) \o <<mid>> \o SubSeq(p2, s + 1, N(c)),
           SubSeq(k2, 1, s) \o <<"smooth">> \o SubSeq(k2, s + 1, N(c)), c.cl, src, c.sh)
Room(c, d) == c.q * d * d * d <= 32768 /\ \A i \in 1..N(c) : \A j \in 1..6 : Abs(c.p[i][j]) * d * d * d <= 100000000
SplitC == \E t \in Some(Ts), i \in Some(Ids) : \E s \in Some(1..Segs(cv[i])) :
             Room(cv[i], t[2]) /\ New("split", <<i, s>> \o t, Split(cv[i], s, t))

Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Reverse(c) ==
  LET p == [i \in 1..N(c) |-> LET a == c.p[N(c) + 1 - i] IN <<a[1], a[2], a[5], a[6], a[3], a[4]>>]
      back == [i \in 1..Segs(c) |-> [c.src[i] EXCEPT !.a = c.src[i].b, !.b = c.src[i].a]]
      \* the segments of a closed list come in reverse order starting before the last point
      src == IF c.cl /\ N(c) >= 1 THEN Rev(SubSeq(back, 1, N(c) - 1)) \o <<back[N(c)]>> ELSE Rev(back)
  IN Curve(c.q, p, Rev(c.k), c.cl, src, c.sh)
ReverseC == \E i \in Some(Ids) : New("reverse", <<i>>, Reverse(cv[i]))
\* each control point reversed in place of the list order
FlipC == \E i \in Some(Ids) : LET c == cv[i] IN
   New("flip", <<i>>, Own(Curve(c.q, [j \in 1..N(c) |-> <<c.p[j][1], c.p[j][2], c.p[j][5], c.p[j][6], c.p[j][3], c.p[j][4]>>], c.k, c.cl, <<>>, c.sh)))
CopyC == \E i \in Some(Ids) : New("copy", <<i>>, [cv[i] EXCEPT !.sh = Fresh])
FixedC == \E i \in Some(Ids) : New("fixed", <<i>>, [cv[i] EXCEPT !.sh = Fresh])

MapCp(m, q, a) == <<m[1]*a[1] + m[2]*a[2] + m[3]*q, m[4]*a[1] + m[5]*a[2] + m[6]*q,
                    m[1]*a[3] + m[2]*a[4], m[4]*a[3] + m[5]*a[4], m[1]*a[5] + m[2]*a[6], m[4]*a[5] + m[5]*a[6]>>
Mapped(c, m) == Curve(c.q * m[7], [i \in 1..N(c) |-> MapCp(m, c.q, c.p[i])], c.k, c.cl, <<>>, Fresh)
MapC == \E m \in Some(Maps), i \in Some(Ids) : New("map", <<i>> \o m, Own(Mapped(cv[i], m)))

\* a non-linear map of a whole-number control point; smooth kinds are brought back into shape
WarpPt(w, x, y) == <<x + w[1]*y*y + w[2]*x*y, y + w[3]*x*x>>
WarpCp(w, a) == LET c == WarpPt(w, a[1], a[2]) l == WarpPt(w, a[1] + a[3], a[2] + a[4]) r == WarpPt(w, a[1] + a[5], a[2] + a[6])
                IN <<c[1], c[2], l[1] - c[1], l[2] - c[2], r[1] - c[1], r[2] - c[2]>>
Even(a, k) == IF k # "very-smooth" THEN [j \in 1..6 |-> 2*a[j]]
              ELSE <<2*a[1], 2*a[2], a[3] - a[5], a[4] - a[6], a[5] - a[3], a[6] - a[4]>>
WarpC == \E w \in Some(Warps), i \in Some(Ids) : LET c == cv[i] IN
   /\ c.q = 1 /\ \A j \in 1..N(c) : \A x \in 1..6 : Abs(c.p[j][x]) <= 60
   /\ \A j \in 1..N(c) : c.k[j] # "smooth"
   /\ New("warp", <<i>> \o w, Own(Curve(2, [j \in 1..N(c) |-> Even(WarpCp(w, c.p[j]), c.k[j])], c.k, c.cl, <<>>, Fresh)))
\* for smooth ones the mapped handles are given, the answer keeps their lengths along their common direction
WarpAsk == \E w \in Some(Warps), i \in Some(Ids) : LET c == cv[i] IN
   /\ c.q = 1 /\ \A j \in 1..N(c) : \A x \in 1..6 : Abs(c.p[j][x]) <= 60
   /\ Ask("warp each", <<i>> \o w, [j \in 1..N(c) |-> WarpCp(w, c.p[j])])

Alone(i) == \A j \in Ids : j # i => cv[j].sh # cv[i].sh
Put(c, j, k, x) == [c EXCEPT !.p[j][k] = x * c.q]
Poke == \E x \in Some(Cs), i \in Some(Ids) : \E j \in Some(1..N(cv[i])), k \in Some({1, 3, 5}) :
   /\ Alone(i)
   /\ Change("poke", <<i, j, k, x>>, i, Own(Put(Put(cv[i], j, k, x), j, k + 1, -x)))
SetKind == \E k \in Some(Kinds), i \in Some(Ids) : \E j \in Some(1..N(cv[i])) :
   Change("kind", <<i, j, k>>, i, [cv[i] EXCEPT !.k[j] = k])
Restore == \E i \in Some(Ids), i2 \in Some(Ids) : \E j \in Some(1..N(cv[i])), j2 \in Some(1..N(cv[i2])) :
   LET c == cv[i] d == cv[i2]  Under(a, q) == \A x \in 1..N(a) : \A y \in 1..6 : Abs(a.p[x][y]) <= 1000000000 \div q IN
   /\ c.q <= 40000 \div d.q /\ Under(c, d.q) /\ Under(d, c.q)
   /\ Change("restore", <<i, j, i2, j2>>, i,
      Own(Curve(c.q * d.q, [x \in 1..N(c) |-> IF x = j THEN [y \in 1..6 |-> d.p[j2][y] * c.q] ELSE [y \in 1..6 |-> c.p[x][y] * d.q]],
                [c.k EXCEPT ![j] = d.k[j2]], c.cl, <<>>, c.sh)))

\* flattening one segment: the points at i/n, over q n^3
Flatten(c, s, n) == [i \in 1..(n + 1) |-> Cub(Quad(c, s), i - 1, n)]
SmallFor(c, n) == LET lim == 1000000000 \div (n*n*n*8) IN \A i \in 1..N(c) : \A j \in 1..6 : Abs(c.p[i][j]) <= lim
AskBez == \E n \in Some(Steps), i \in Some(Ids) : \E s \in Some(1..Segs(cv[i])) :
   SmallFor(cv[i], n) /\ Ask("bez", <<i, s, n>>, <<cv[i].q * n*n*n, Flatten(cv[i], s, n)>>)
\* a whole curve: shared joints once
RECURSIVE Joined(_, _, _)
Joined(c, s, n) == IF s > Segs(c) THEN <<>>
                   ELSE (IF s = 1 THEN Flatten(c, s, n) ELSE Tail(Flatten(c, s, n))) \o Joined(c, s + 1, n)
AskPath == \E n \in Some(Steps), m \in Some(Maps), i \in Some(Ids) : LET c == Mapped(cv[i], m) IN
   N(c) * n <= 60 /\ SmallFor(c, n) /\ Ask("path", <<i, n>> \o m, <<c.q * n*n*n, Joined(c, 1, n)>>)
\* an element with its own map m1, drawn through a context with map m2
AskElem == \E n \in Some(Steps), m \in Some(Maps), m2 \in Some(Maps), i \in Some(Ids) :
   LET c == Mapped(Reduce(Mapped(cv[i], m)), m2) IN
   /\ N(c) * n <= 60 /\ SmallFor(c, n)
   /\ Ask("paths", <<i, n, m, m2>>, <<c.q * n*n*n, Joined(c, 1, n), c.q, c.p>>)

Next == NewCurve \/ SplitC \/ ReverseC \/ FlipC \/ CopyC \/ FixedC \/ MapC \/ WarpC \/ WarpAsk \/ Poke \/ SetKind \/ Restore
        \/ AskBez \/ AskPath \/ AskElem
SplitNext == NewCurve \/ SplitC \/ SplitC \/ ReverseC \/ CopyC \/ MapC \/ Poke \/ SplitC
FlatNext == NewCurve \/ AskBez \/ AskPath \/ AskElem \/ SplitC \/ MapC \/ ReverseC \/ Poke
CpNext == NewCurve \/ ReverseC \/ FlipC \/ CopyC \/ FixedC \/ MapC \/ WarpC \/ WarpAsk \/ Poke \/ SetKind \/ Restore \/ SplitC
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
\* every segment traces exactly its part of its source: equality of the two cubics at five parameters, which decides
\* equality of cubics
TracesSource(c) == \A s \in 1..Segs(c) : \A u \in {0, 1, 2, 4} :
   LET g == c.src[s]
       \* a + u/4 (b - a)
       t == RAdd(g.a, RMul(R(u, 4), RSub(g.b, g.a)))
       x == Cub(Quad(c, s), u, 4)
       y == Cub(g.p, t[1], t[2])
   IN \* avoid overflow on very fine parts
      t[2] <= 24 => \A k \in 1..2 : R(x[k], 64 * c.q) = R(y[k], t[2]*t[2]*t[2] * g.q)
Traces == \A i \in Ids : TracesSource(cv[i])
\* flattening: closed returns to the start, open ends at the last control point, no point count surprises
PathShape == (Len(hist) > 0 /\ hist[Len(hist)].op = "path") =>
   LET h == hist[Len(hist)] c == cv[h.a[1]] pts == h.r[2] n == h.a[2] IN
   /\ Len(pts) = Segs(c) * n + 1
   /\ c.cl => pts[1] = pts[Len(pts)]
Twice == \A i \in Ids : Reverse(Reverse(cv[i])) = cv[i]
OnlyChanges == [][\A i \in Ids : cv'[i] # cv[i] => hist'[Len(hist')].op \in {"poke", "kind", "restore"}]_vars

View == cv
EmitStep == CSVWrite("%1$s", <<ToJson(hist')>>, "out.ndjson")
EmitFull == (Len(hist) = Depth) => CSVWrite("%1$s", <<ToJson(hist)>>, "out.ndjson")
==========================================================================
