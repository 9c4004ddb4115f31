----------------------------- MODULE OffsetSys -----------------------------
(* Moving a closed curve sideways.  The control polygon of the curve (left handle, centre, right handle of every control
   point in turn) grows by a point at a time, every edge having a whole-number length; once it is closed it is moved by
   distances, again and again, always from the same original.  An offset polygon has edges parallel to those of the original at
   that distance, to the inside for positive distances, whichever way round the original goes; corners go at most Limit far. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Coords, Ns,       \* coordinates of points; numbers of control points
          Roots,            \* whole numbers h with squares that are looked for
          Dists, Limit, Depth, Sample

VARIABLES po, n, hist
vars == <<po, n, hist>>
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
Running == Len(hist) < Depth
Step(op, a, r) == hist' = Append(hist, [op |-> op, a |-> a, r |-> r])
Init == po = <<>> /\ n \in Ns /\ hist = <<>>

D(p, q) == <<q[1] - p[1], q[2] - p[2]>>
Sq(v) == v[1] * v[1] + v[2] * v[2]
Whole(v) == \E h \in Roots : h * h = Sq(v)
Root(v) == CHOOSE h \in Roots : h * h = Sq(v)
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
\* no turning back on the spot
Turns(p, q, r) == ~(Cross(D(p, q), D(q, r)) = 0 /\ Dot(D(p, q), D(q, r)) < 0)
RECURSIVE Twice(_, _)
Twice(p, i) == IF i > Len(p) THEN 0 ELSE Cross(p[i], p[(i % Len(p)) + 1]) + Twice(p, i + 1)
Done == Len(po) = 3 * n
Fine(p) == LET m == Len(p) IN
  /\ m = 1 \/ Whole(D(p[m - 1], p[m]))
  /\ m < 3 \/ Turns(p[m - 2], p[m - 1], p[m])
Shut(p) == LET m == Len(p) IN /\ Whole(D(p[m], p[1])) /\ Turns(p[m - 1], p[m], p[1]) /\ Turns(p[m], p[1], p[2]) /\ Twice(p, 1) # 0
Next3(p) == {v \in Coords \X Coords : LET q == Append(p, v) IN IF Len(q) = 3 * n THEN Fine(q) /\ Shut(q) ELSE Fine(q)}
Add == /\ Running /\ ~Done
       /\ \E v \in Some(Next3(po)) : po' = Append(po, v) /\ Step("add", v, <<>>)
       /\ UNCHANGED n

\* corner q between p and r, going round with the inside on the left: <<x, y, divisor, far>> from q; far: cut to Limit
Left(v) == <<-v[2], v[1]>>
Corner(p, q, r, d) ==
  LET u == Left(D(p, q)) v == Left(D(q, r)) h == Root(u) k == Root(v)
      w == <<u[1] * k + v[1] * h, u[2] * k + v[2] * h>>
      den == h * k + Dot(u, v)
  IN <<d * w[1], d * w[2], den, 2 * d * d * h * k > Limit * Limit * den>>
Rev(p) == [i \in 1..Len(p) |-> p[Len(p) + 1 - i]]
Way(p) == IF Twice(p, 1) < 0 THEN Rev(p) ELSE p
Moved(p, d) == LET w == Way(p) m == Len(w) IN [i \in 1..m |-> w[i] \o Corner(w[((i + m - 2) % m) + 1], w[i], w[(i % m) + 1], d)]
Offset == /\ Running /\ Done
          /\ \E d \in Some(Dists) : Step("offset", <<d>>, Moved(po, d))
          /\ UNCHANGED <<po, n>>
Next == Add \/ Offset
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------
Last == hist[Len(hist)]
\* every moved edge is parallel to the original one at the distance (exactly: for q1 -> q2 moved to q1 + a/s, q2 + b/t,
\* both a/s and b/t have component d along the left normal)
Parallel == (hist # <<>> /\ Last.op = "offset") => LET r == Last.r m == Len(r) d == Last.a[1] IN \A i \in 1..m :
   LET a == r[i] b == r[(i % m) + 1] u == Left(D(<<a[1], a[2]>>, <<b[1], b[2]>>)) h == Root(u)
   IN Dot(u, <<a[3], a[4]>>) = d * h * a[5] /\ Dot(u, <<b[3], b[4]>>) = d * h * b[5]
\* the other way round gives the same
SameBothWays == (hist # <<>> /\ Last.op = "offset") => {Moved(Rev(po), Last.a[1])[i] : i \in 1..Len(po)} = {Last.r[i] : i \in 1..Len(po)}
View == <<po, n, Len(hist), IF hist = <<>> THEN 0 ELSE Last>>
Emit(h) == CSVWrite("%1$s", <<ToJson(h)>>, "out.ndjson")
EmitStep == Emit(hist')
EmitDone == (hist'[Len(hist')].op = "offset") => Emit(hist')
EmitFull == Len(hist) = Depth => Emit(hist)
==========================================================================
