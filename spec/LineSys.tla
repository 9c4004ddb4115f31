------------------------------ MODULE LineSys ------------------------------
(* Lines (origin and direction, also read as the segment from origin to origin + direction) as objects that nothing
   changes, and the questions asked of them; signed areas of polygons. *)
EXTENDS Rat, TLC, Json, CSV, FiniteSets

CONSTANTS Xs,          \* coordinates of points
          MaxObjs, Depth, Lim, Sides, Sample

VARIABLES ls, hist
vars == <<ls, hist>>

Line(ox, oy, dx, dy) == <<ox, oy, dx, dy>>
CrossN(a, b, c, d) == a*d - b*c
Parallel(p, q) == CrossN(p[3], p[4], q[3], q[4]) = 0
\* the point of p at parameter n/d
At(p, r) == NormSeq(<<p[1]*r[2] + p[3]*r[1], p[2]*r[2] + p[4]*r[1], r[2]>>)
\* parameter on p of the meeting point of two non-parallel lines
TOn(p, q) == LET d == CrossN(p[3], p[4], q[3], q[4])
             IN RDiv(<<CrossN(q[1] - p[1], q[2] - p[2], q[3], q[4]), 1>>, <<d, 1>>)
OnLine(p, t) == (t[1] - p[1]*t[3])*p[4] = (t[2] - p[2]*t[3])*p[3]
UnitIv(r) == 0 <= r[1] /\ r[1] <= r[2]
OpenIv(r) == 0 < r[1] /\ r[1] < r[2]
Foot(p, x, y) == At(p, R((x - p[1])*p[3] + (y - p[2])*p[4], p[3]*p[3] + p[4]*p[4]))

Lo(p, k) == Min2(p[k], p[k] + p[k+2])
Hi(p, k) == Max2(p[k], p[k] + p[k+2])
\* bounding boxes on neither side of each other
BoxesOverlap(p, q) == \A k \in 1..2 : Lo(p, k) < Hi(q, k) /\ Lo(q, k) < Hi(p, k)
\* 0: no common point, 1: inner points of both, 2: an end point of one; 3: same direction
Meeting(p, q) == IF Parallel(p, q) THEN 3
                 ELSE IF ~UnitIv(TOn(p, q)) \/ ~UnitIv(TOn(q, p)) THEN 0
                 ELSE IF OpenIv(TOn(p, q)) /\ OpenIv(TOn(q, p)) THEN 1 ELSE 2

Init == ls = <<>> /\ hist = <<>>
Running == Len(hist) < Depth
Ids == 1..Len(ls)
\* (mentioning the state keeps TLC from evaluating the random choice once and for all)
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
Fits(l) == \A k \in 1..4 : Abs(l[k]) <= Lim
Step(op, a, r) == hist' = Append(hist, [op |-> op, a |-> a, r |-> r, o |-> ls'])
New(op, a, l) == Running /\ Len(ls) < MaxObjs /\ Fits(l) /\ <<l[3], l[4]>> # <<0, 0>> /\ ls' = Append(ls, l) /\ Step(op, a, <<>>)
Ask(op, a, r) == Running /\ UNCHANGED ls /\ Step(op, a, r)

NewDir == \E x \in Some(Xs), y \in Some(Xs), dx \in Some(Xs), dy \in Some(Xs) : New("direction", <<x, y, dx, dy>>, <<x, y, dx, dy>>)
NewPts == \E x \in Some(Xs), y \in Some(Xs), x2 \in Some(Xs), y2 \in Some(Xs) : New("points", <<x, y, x2, y2>>, <<x, y, x2 - x, y2 - y>>)
FromPts == \E x \in Some(Xs), y \in Some(Xs), x2 \in Some(Xs), y2 \in Some(Xs) : New("from_pts", <<x, y, x2, y2>>, <<x, y, x2 - x, y2 - y>>)
\* through the first point of i and the last of j
Join == \E i \in Some(Ids), j \in Some(Ids) : LET p == ls[i] q == ls[j] IN
           New("join", <<i, j>>, <<p[1], p[2], q[1] + q[3] - p[1], q[2] + q[4] - p[2]>>)
AddV == \E x \in Some(Xs), y \in Some(Xs), i \in Some(Ids) : LET p == ls[i] IN New("+", <<i, x, y>>, <<p[1] + x, p[2] + y, p[3], p[4]>>)
SubV == \E x \in Some(Xs), y \in Some(Xs), i \in Some(Ids) : LET p == ls[i] IN New("-", <<i, x, y>>, <<p[1] - x, p[2] - y, p[3], p[4]>>)

Answer(p, q) == IF Parallel(p, q) THEN <<>> ELSE At(p, TOn(p, q))
AskInter == \E i \in Some(Ids), j \in Some(Ids) : Ask("intersection", <<i, j>>, Answer(ls[i], ls[j]))
SegAnswer(p, q) == <<Meeting(p, q), IF BoxesOverlap(p, q) THEN 1 ELSE 0>> \o
                   (IF Parallel(p, q) THEN <<>> ELSE <<At(p, TOn(p, q)), TOn(p, q), TOn(q, p)>>)
AskSeg == \E i \in Some(Ids), j \in Some(Ids) : Ask("segments", <<i, j>>, SegAnswer(ls[i], ls[j]))
AskClosest == \E x \in Some(Xs), y \in Some(Xs), i \in Some(Ids) : Ask("closest", <<i, x, y>>, Foot(ls[i], x, y))

\* twice the signed area, as the sum over the edges
RECURSIVE Shoe(_, _)
Shoe(v, i) == IF i > Len(v) THEN 0
              ELSE LET a == v[i] b == v[(i % Len(v)) + 1] IN a[1]*b[2] - a[2]*b[1] + Shoe(v, i + 1)
Area2(v) == Shoe(v, 1)
RandPoly(n) == [k \in 1..n |-> <<RandomElement(Xs), RandomElement(Xs)>>]
AskArea == \E n \in Sides : \E v \in (IF Sample THEN {RandPoly(n)} ELSE [1..n -> {<<x, y>> : x, y \in Xs}]) :
              Ask("area", v, <<Area2(v)>>)

Next == NewDir \/ NewPts \/ FromPts \/ Join \/ AddV \/ SubV \/ AskInter \/ AskSeg \/ AskClosest \/ AskArea
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
\* every pair of segments on a grid
SegsOf(X) == {<<x, y, x2 - x, y2 - y>> : x, y, x2, y2 \in X} \ {<<x, y, 0, 0>> : x, y \in X}
PairInit == \E p, q \in SegsOf(Xs) :
   /\ ls = <<p, q>>
   /\ hist = <<[op |-> "init", a |-> <<>>, r |-> <<>>, o |-> <<p, q>>],
               [op |-> "intersection", a |-> <<1, 2>>, r |-> Answer(p, q), o |-> <<p, q>>],
               [op |-> "segments", a |-> <<1, 2>>, r |-> SegAnswer(p, q), o |-> <<p, q>>],
               [op |-> "closest", a |-> <<1, q[1], q[2]>>, r |-> Foot(p, q[1], q[2]), o |-> <<p, q>>]>>
Stay == UNCHANGED vars
\* every polygon on a grid
PolyInit == ls = <<>> /\ \E n \in Sides : \E v \in [1..n -> {<<x, y>> : x, y \in Xs}] :
   hist = <<[op |-> "area", a |-> v, r |-> <<Area2(v)>>, o |-> <<>>]>>

\* the answers mean what they should
Sound == Len(ls) >= 2 => LET p == ls[1] q == ls[2] IN
   /\ ~Parallel(p, q) => /\ OnLine(p, Answer(p, q)) /\ OnLine(q, Answer(p, q))
                         /\ Answer(p, q) = Answer(q, p)
                         /\ At(q, TOn(q, p)) = Answer(p, q)
                         /\ (Meeting(p, q) = 1 => BoxesOverlap(p, q))
   /\ LET f == Foot(p, q[1], q[2]) IN
        /\ OnLine(p, f)
        \* perpendicular, hence closest
        /\ (q[1]*f[3] - f[1])*p[3] + (q[2]*f[3] - f[2])*p[4] = 0
   \* proper crossing = each segment's ends strictly on opposite sides of the other line
   /\ LET side(l, x, y) == CrossN(l[3], l[4], x - l[1], y - l[2])
          opp(l, m) == Sgn(side(l, m[1], m[2])) * Sgn(side(l, m[1] + m[3], m[2] + m[4])) = -1
      IN (Meeting(p, q) = 1) <=> opp(p, q) /\ opp(q, p)
Rot(v) == Tail(v) \o <<Head(v)>>
Rev(v) == [k \in 1..Len(v) |-> v[Len(v) + 1 - k]]
Shift(v) == [k \in 1..Len(v) |-> <<v[k][1] + 3, v[k][2] - 5>>]
RECURSIVE Fan(_, _)
Fan(v, i) == IF i >= Len(v) THEN 0 ELSE CrossN(v[i][1] - v[1][1], v[i][2] - v[1][2], v[i+1][1] - v[1][1], v[i+1][2] - v[1][2]) + Fan(v, i + 1)
AreaSound == (Len(hist) > 0 /\ hist[Len(hist)].op = "area") => LET v == hist[Len(hist)].a IN
   /\ Area2(Rot(v)) = Area2(v) /\ Area2(Rev(v)) = -Area2(v) /\ Area2(Shift(v)) = Area2(v) /\ Fan(v, 2) = Area2(v)
Unchanged == [][\A i \in Ids : ls'[i] = ls[i]]_vars

View == ls
Emit == CSVWrite("%1$s", <<ToJson(hist)>>, "out.ndjson")
EmitStep == CSVWrite("%1$s", <<ToJson(hist')>>, "out.ndjson")
EmitFull == (Len(hist) = Depth) => Emit
==========================================================================
