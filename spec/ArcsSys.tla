------------------------------- MODULE ArcsSys -------------------------------
(* Arcs, circles and paths.  Angles are in quarters of a degree.  A place is a sum of terms <<r, a>>: r long in direction a;
   a path is a sequence of runs: the n + 1 points c + r in the directions a + (b - a) * i / n, i = 0..n (one point, at
   direction a, for n = 0).  Turning and moving paths is exact on them. *)
EXTENDS Rat, FiniteSets, TLC, Json, CSV

CONSTANTS Radii, Angles, Centers,   \* centers: <<x, y>>
          Steps,                    \* numbers of steps, -1 being the default
          MaxPaths, MaxRuns, MaxTerms, Depth, Sample, Ops

VARIABLES pa, hist
vars == <<pa, hist>>
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
Running == Len(hist) < Depth
On(op) == op \in Ops
Ps == 1..Len(pa)
Turn == 1440
Step(op, a, r) == hist' = Append(hist, [op |-> op, a |-> a, r |-> r])
Init == pa = <<>> /\ hist = <<>>
Run(c, r, a, b, n) == [c |-> c, r |-> r, a |-> a, b |-> b, n |-> n]
Dot(c) == Run(c, 0, 0, 0, 0)
Place(xy) == <<<<xy[1], 0>>, <<xy[2], Turn \div 4>>>>
\* kind: "xy" (pairs) or "pt" (points)
New(op, a, kind, runs) == /\ Running /\ Len(pa) < MaxPaths /\ Len(runs) <= MaxRuns /\ \A i \in 1..Len(runs) : Len(runs[i].c) <= MaxTerms
                          /\ pa' = Append(pa, [kind |-> kind, runs |-> runs]) /\ Step(op, a, pa'[Len(pa')])
Only(op, a, r) == Running /\ UNCHANGED pa /\ Step(op, a, r)

\* the angles travelled between
Ends(a, b, d) ==
  LET s == a % Turn e == b % Turn IN
  CASE d = "ccw" -> <<s, IF e < s THEN e + Turn ELSE e>>
    [] d = "cw" -> <<IF s < e THEN s + Turn ELSE s, e>>
    [] OTHER -> <<a, b>>
\* one step per degree
Count(e, n) == IF n >= 0 THEN n ELSE Abs(e[2] - e[1]) \div 4 + 1
Arc == \E r \in Some(Radii), a \in Some(Angles), b \in Some(Angles), c \in Some(Centers), n \in Some(Steps), d \in Some({"ccw", "cw", "none"}) :
   /\ On("arc")
   /\ LET e == Ends(a, b, d) IN New("arc", <<r, a, b, c, n, d>>, "xy", <<Run(Place(c), r, e[1], e[2], Count(e, n))>>)
\* s and e lie in the directions a and b from c; the arc between them goes about c or about its mirror image.  side: whether
\* the center lies to the right of s -> e.  Half turns are left out, and so is the default number of steps of whole degrees
\* (there, rounding decides)
TwoPoints == \E r \in Some(Radii \ {0}), a \in Some(Angles), b \in Some(Angles), c \in Some(Centers), n \in Some(Steps), side \in Some({1, -1, 3, -2}) :
   /\ On("arc2p") /\ (b - a) % Turn \notin {0, Turn \div 2} /\ (n < 0 => (b - a) % 4 # 0)
   /\ LET C == Place(c)
          right == (b - a) % Turn > Turn \div 2
          S == Append(C, <<r, a>>) E == Append(C, <<r, b>>)
          M == C \o <<<<r, a>>, <<r, b>>>>
          at == IF right <=> side > 0 THEN C ELSE M
          e == IF at = C THEN Ends(a, b, "ccw") ELSE Ends(b + Turn \div 2, a + Turn \div 2, "ccw")
      IN New("arc2p", <<r, a, b, c, n, side>>, "xy", <<Dot(E), Dot(at), Dot(S), Run(at, r, e[1], e[2], Count(e, n))>>)
\* no arc: the ends are more than 2r apart (what: how much of it r is, in hundreds of half the distance), or the same
NoArc == \E r \in Some(Radii \ {0}), a \in Some(Angles), b \in Some(Angles), c \in Some(Centers), what \in Some({0, 50, 99}) :
   /\ On("arc2p") /\ (what > 0 => (b - a) % Turn \in 4..Turn - 4)
   /\ Only("noarc", <<r, a, IF what = 0 THEN a ELSE b, c, what>>, 0)
Circle == \E r \in Some(Radii), c \in Some(Centers) : On("circle") /\ New("circle", <<r, c>>, "xy", <<Run(Place(c), r, 0, Turn, 360)>>)
Q == Turn \div 8
Star(c, r, d) == <<Dot(Append(c, <<r, d + Turn \div 2>>)), Dot(Append(c, <<r, d>>)), Dot(c), Dot(Append(c, <<r, d - Turn \div 4>>)), Dot(Append(c, <<r, d + Turn \div 4>>))>>
Cross == \E r \in Some(Radii), c \in Some(Centers) : On("circle") /\ New("cross", <<r, c>>, "xy", Star(Place(c), r, Q))
Plus == \E r \in Some(Radii), c \in Some(Centers) : On("circle") /\ New("plus", <<r, c>>, "xy", Star(Place(c), r, 0))
Given == \E n \in Some(0..4), kind \in Some({"xy", "pt"}) : \E a \in Some(Centers), b \in Some(Centers), c \in Some(Centers), d \in Some(Centers) :
   On("given") /\ New("given", <<>>, kind, [i \in 1..n |-> Dot(Place(<<a, b, c, d>>[i]))])

Rot(t, a) == [i \in 1..Len(t) |-> <<t[i][1], t[i][2] + a>>]
Rotated(rs, a) == [i \in 1..Len(rs) |-> [rs[i] EXCEPT !.c = Rot(@, a), !.a = @ + a, !.b = @ + a]]
Moved(rs, xy) == [i \in 1..Len(rs) |-> [rs[i] EXCEPT !.c = @ \o Place(xy)]]
Points == {k \in Ps : pa[k].kind = "pt"}
Kind(pt) == IF pt THEN "pt" ELSE "xy"
\* path_rotate turns clockwise
Rotate == \E k \in Some(Points), a \in Some(Angles), pt \in Some(BOOLEAN), ccw \in Some(BOOLEAN) :
   On("map") /\ New("rotate", <<k, a, pt, ccw>>, Kind(pt), Rotated(pa[k].runs, IF ccw THEN a ELSE -a))
Translate == \E k \in Some(Points), c \in Some(Centers), pt \in Some(BOOLEAN), v \in Some(BOOLEAN) :
   On("map") /\ New("translate", <<k, c, pt, v>>, Kind(pt), Moved(pa[k].runs, c))
ToXY == \E k \in Some(Points) : On("convert") /\ New("to_xy", <<k>>, "xy", pa[k].runs)
FromXY == \E k \in Some(Ps \ Points) : On("convert") /\ New("from_xy", <<k>>, "pt", pa[k].runs)
\* checking a list of points passes; one with a pair at place i is refused
Check == \E k \in Some(Ps), i \in Some(0..3) : On("check") /\ Only("check", <<k, i>>, i = 0 /\ (pa[k].kind = "pt" \/ pa[k].runs = <<>>))
Least(t, s) == ((t - s + Turn \div 2) % Turn) - Turn \div 2
MinRotation == \E t \in Some(Angles), s \in Some(Angles), n \in Some({-1, 0, 1}) : On("least") /\ Only("least", <<t + n * Turn, s>>, Least(t + n * Turn, s))

Next == Arc \/ TwoPoints \/ NoArc \/ Circle \/ Cross \/ Plus \/ Given \/ Rotate \/ Translate \/ ToXY \/ FromXY \/ Check \/ MinRotation
Spec == Init /\ [][Next]_vars
Walk == Init /\ [][Next \/ FromXY \/ Rotate \/ Translate]_vars
------------------------------------------------------------------------
Last == hist[Len(hist)]
\* min_rotation gives the only turn of [-180, 180) that leads from source to target
LeastTurn == hist = <<>> \/ (Last.op = "least" => Last.r >= -720 /\ Last.r < 720 /\ (Last.a[2] + Last.r - Last.a[1]) % Turn = 0)
\* arcs begin and end where asked, and go less than a whole turn in their direction
Travel == hist = <<>> \/ (Last.op = "arc" => LET u == Last.r.runs[1] d == Last.a[6] IN
   /\ (u.a - Last.a[2]) % Turn = 0 /\ (u.b - Last.a[3]) % Turn = 0
   /\ (d = "ccw" => u.b - u.a \in 0..Turn - 1) /\ (d = "cw" => u.a - u.b \in 0..Turn - 1))
\* an arc between two points ends at the second one: e is the place of its last point, s that of the first
Tip(u, a) == {<<x[1], x[2] % Turn>> : x \in {u.c[i] : i \in 3..Len(u.c)} \cup {<<u.r, a>>}}
Cancel(S) == {x \in S : <<x[1], (x[2] + Turn \div 2) % Turn>> \notin S}
Meets == hist = <<>> \/ (Last.op = "arc2p" => LET u == Last.r.runs[4] r == Last.a[1] IN
   Cancel(Tip(u, u.a)) = {<<r, Last.a[2] % Turn>>} /\ Cancel(Tip(u, u.b)) = {<<r, Last.a[3] % Turn>>})
Grow == [][Len(pa') >= Len(pa) /\ SubSeq(pa', 1, Len(pa)) = pa]_vars
View == <<pa, Len(hist)>>
Emit(h) == CSVWrite("%1$s", <<ToJson(h)>>, "out.ndjson")
EmitStep == Emit(hist')
EmitFull == Len(hist) = Depth => Emit(hist)
==========================================================================
