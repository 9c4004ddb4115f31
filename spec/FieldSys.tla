------------------------------ MODULE FieldSys ------------------------------
(* Vector fields on rectangular meshes.  A field holds a vector for every node; in a cell it is the bilinear mean of the
   four corners, and outside the mesh the nearest cell goes on.  Values are whole numbers over q, and over the root
   of m if m # 0 (fields scaled to length one have no rational values). *)
EXTENDS Rat, FiniteSets, TLC, Json, CSV

CONSTANTS Meshes,      \* <<xl, yl, xh, yh, n>>: box and number of nodes per side
          Values,      \* whole numbers
          Scales,      \* rationals
          Spots,       \* places in units of the box: <<<<n, d>>, <<n, d>>>>, (0, 0) and (1, 1) being its corners
          MaxFields, Depth, Lim, Sample, Ops

VARIABLES fi, hist
vars == <<fi, hist>>
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
Running == Len(hist) < Depth
On(op) == op \in Ops
Fs == 1..Len(fi)
N(f) == f.me[5]
Nodes(n) == (1..n) \X (1..n)
Step(op, a, r) == hist' = Append(hist, [op |-> op, a |-> a, r |-> r])
Init == fi = <<>> /\ hist = <<>>
Field(me, x, y, q, m) == [me |-> me, x |-> x, y |-> y, q |-> q, m |-> m]
Fits(f) == f.q <= 200 /\ f.m <= Lim * Lim /\ \A i, j \in 1..N(f) : Abs(f.x[i][j]) <= Lim /\ Abs(f.y[i][j]) <= Lim
New(op, a, f) == Running /\ Len(fi) < MaxFields /\ Fits(f) /\ fi' = Append(fi, f) /\ Step(op, a, f)

Const(n, v) == [i \in 1..n |-> [j \in 1..n |-> v]]
\* (a random grid; the argument keeps it from being a constant)
RandGrid(n, u) == [i \in 1..n |-> [j \in 1..n |-> RandomElement(Values)]]
Grids(n) == IF Sample THEN {RandGrid(n, Len(hist))} ELSE [1..n -> [1..n -> Values]]
Zeros == \E me \in Some(Meshes) : On("new") /\ New("zeros", <<me>>, Field(me, Const(me[5], 0), Const(me[5], 0), 1, 0))
Given == \E me \in Some(Meshes) : On("new") /\ Running /\ Len(fi) < MaxFields /\ \E x \in Grids(me[5]), y \in Grids(me[5]) : New("given", <<me>>, Field(me, x, y, 1, 0))
Uniform == \E me \in Some(Meshes) : On("new") /\ Running /\ UNCHANGED fi /\ Step("uniform", <<me>>, 0)

Map(g, k) == [i \in DOMAIN g |-> [j \in DOMAIN g[i] |-> g[i][j] * k]]
Copy == \E k \in Some(Fs) : On("copy") /\ New("copy", <<k>>, fi[k])
\* by one factor, or one for each direction
Scaled(f, s, t) == Field(f.me, Map(f.x, s[1] * t[2]), Map(f.y, t[1] * s[2]), f.q * s[2] * t[2], f.m)
Scale == \E k \in Some(Fs), s \in Some(Scales), t \in Some(Scales), one \in Some(BOOLEAN) :
   On("scale") /\ New("scaled", IF one THEN <<k, s>> ELSE <<k, s, t>>,
                      IF one THEN Field(fi[k].me, Map(fi[k].x, s[1]), Map(fi[k].y, s[1]), fi[k].q * s[2], fi[k].m) ELSE Scaled(fi[k], s, t))
Sq(f, n) == f.x[n[1]][n[2]] * f.x[n[1]][n[2]] + f.y[n[1]][n[2]] * f.y[n[1]][n[2]]
MaxSq(f) == LET S == {Sq(f, n) : n \in Nodes(N(f))} IN CHOOSE s \in S : \A t \in S : t <= s
\* the longest vector gets length one; a field of zeros stays
Normal(f) == IF MaxSq(f) = 0 THEN f ELSE Field(f.me, f.x, f.y, 1, MaxSq(f))
Normalize == \E k \in Some(Fs) : On("norm") /\ New("normalized", <<k>>, Normal(fi[k]))

\* storing vectors: at one node, or a whole new grid
Edit == \E k \in Some({k \in Fs : fi[k].m = 0 /\ fi[k].q = 1}) : \E n \in Some(Nodes(N(fi[k]))), v \in Some(Values), w \in Some(Values) :
   /\ Running /\ On("edit")
   /\ fi' = [fi EXCEPT ![k].x[n[1]][n[2]] = v, ![k].y[n[1]][n[2]] = w]
   /\ Step("edit", <<k, n, v, w>>, fi'[k])
Assign == \E k \in Some({k \in Fs : fi[k].m = 0 /\ fi[k].q = 1}) : Running /\ On("edit") /\ \E x \in Grids(N(fi[k])) :
   /\ fi' = [fi EXCEPT ![k].x = x]
   /\ Step("assign", <<k>>, fi'[k])

\* the cell and the place in it, along one side, for place u (in units of the box)
CellOf(u, n) == LET c == (u[1] * (n - 1)) \div u[2] IN IF c < 0 THEN 1 ELSE IF c > n - 2 THEN n - 1 ELSE c + 1
In(u, n) == RSub(RMul(u, <<n - 1, 1>>), <<CellOf(u, n) - 1, 1>>)
\* bilinear in the cell, as a rational (the common divisor aside)
Mean(g, p) ==
  LET n == Len(g)
      i == CellOf(p[1], n) j == CellOf(p[2], n)
      s == In(p[1], n) t == In(p[2], n)
      A(v) == <<v, 1>>
      lo == RAdd(RMul(A(g[i][j]), RSub(<<1, 1>>, s)), RMul(A(g[i + 1][j]), s))
      hi == RAdd(RMul(A(g[i][j + 1]), RSub(<<1, 1>>, s)), RMul(A(g[i + 1][j + 1]), s))
  IN RAdd(RMul(lo, RSub(<<1, 1>>, t)), RMul(hi, t))
Vec(f, p) == <<Mean(f.x, p), Mean(f.y, p), f.q, f.m>>
Lookup == \E k \in Some(Fs), p \in Some(Spots) : Running /\ On("lookup") /\ UNCHANGED fi /\ Step("lookup", <<k, p>>, <<Vec(fi[k], p)>>)
\* a point, or lists of them in every form
Displace == \E k \in Some(Fs), p \in Some(Spots), q \in Some(Spots), r \in Some(Spots), h \in Some({"xy", "point", "points", "pairs", "flat", "flat points"}) :
   /\ Running /\ On("displace") /\ UNCHANGED fi
   /\ LET ps == IF h \in {"xy", "point"} THEN <<p>> ELSE <<p, q, r>> IN Step("displace", <<k, h, ps>>, [i \in 1..Len(ps) |-> Vec(fi[k], ps[i])])
Val(f, g, n) == <<R(g[n[1]][n[2]], f.q), f.m>>
Equal == \E k \in Some(Fs), l \in Some(Fs) :
   /\ Running /\ On("equal") /\ fi[k].m = 0 /\ fi[l].m = 0 /\ UNCHANGED fi
   /\ Step("equal", <<k, l>>, fi[k].me = fi[l].me /\ \A n \in Nodes(N(fi[k])) : Val(fi[k], fi[k].x, n) = Val(fi[l], fi[l].x, n) /\ Val(fi[k], fi[k].y, n) = Val(fi[l], fi[l].y, n))

\* smoothing: every node takes the mean of the nodes up to two away, itself counting twenty times; then the longest vector gets
\* length one.  The means come as sums and counts (the lengths have no rational values)
Window(i, n) == {j \in 1..n : j >= i - 2 /\ j <= i + 2}
RECURSIVE Total(_, _)
Total(g, S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN g[c[1]][c[2]] + Total(g, S \ {c})
Sums(g) == [i \in DOMAIN g |-> [j \in DOMAIN g |-> Total(g, Window(i, Len(g)) \X Window(j, Len(g))) + 19 * g[i][j]]]
Counts(n) == [i \in 1..n |-> [j \in 1..n |-> Cardinality(Window(i, n)) * Cardinality(Window(j, n)) + 19]]
Smooth == \E k \in Some(Fs) : Running /\ On("smooth") /\ UNCHANGED fi /\ Step("smoothed", <<k>>, <<Sums(fi[k].x), Sums(fi[k].y), Counts(N(fi[k]))>>)

Next == Smooth \/ Zeros \/ Given \/ Uniform \/ Copy \/ Scale \/ Normalize \/ Edit \/ Assign \/ Lookup \/ Displace \/ Equal
Spec == Init /\ [][Next]_vars
Walk == Init /\ [][Next \/ Edit \/ Assign \/ Lookup \/ Lookup \/ Displace]_vars
------------------------------------------------------------------------
\* on the nodes the mean is the stored value; it is continuous: on the border between two cells both give the same
At(k, n) == <<k - 1, n - 1>>
NodeValues == \A k \in Fs : LET n == N(fi[k]) IN \A i, j \in 1..n : Mean(fi[k].x, <<R(i - 1, n - 1), R(j - 1, n - 1)>>) = <<fi[k].x[i][j], 1>>
\* a field made longer or shorter keeps its shape; normalizing twice is normalizing once
Twice == \A k \in Fs : Normal(Normal(fi[k])) = Normal(fi[k])
\* smoothing knows no direction, and a field that is the same everywhere stays so
Mirror(g) == [i \in DOMAIN g |-> g[Len(g) + 1 - i]]
Swap(g) == [i \in DOMAIN g |-> [j \in DOMAIN g |-> g[j][i]]]
Even == \A k \in Fs : /\ Sums(Mirror(fi[k].x)) = Mirror(Sums(fi[k].x))
                      /\ Sums(Swap(fi[k].x)) = Swap(Sums(fi[k].x))
                      /\ Sums(Const(N(fi[k]), 3)) = Map(Counts(N(fi[k])), 3)
OnlyEdited == [][\A k \in Fs : fi'[k] # fi[k] => LET s == hist'[Len(hist')] IN s.op \in {"edit", "assign"} /\ s.a[1] = k]_vars
View == <<fi, Len(hist)>>
Emit(h) == CSVWrite("%1$s", <<ToJson(h)>>, "out.ndjson")
EmitStep == Emit(hist')
EmitFull == Len(hist) = Depth => Emit(hist)
==========================================================================
