------------------------------ MODULE BuildSys ------------------------------
(* Building models in code.  A builder stands over a group: what it makes goes into that group under the name asked for (or
   the name the group gives), with the pen its palette has at that moment for the kind of shape asked for (or for the
   builder's own kind), or with the pen given outright.  Builders of sub-groups take over palette and kind unless told
   otherwise.  Corners of rectangles and ellipses stay where they were made; the points of a curve stay live.
   pt: points, as rational points.  gr: groups [kids |-> <<<<name, <<"e"|"g", index>>>>>>, pts |-> <<<<name, point>>>>, hid, xf].
   el: elements [t, pen, cl, g, r, xf]; g: corners, or points of a curve as <<"live", i>> and <<"at", p>>; r: radius.
   pal: palettes, kind of shape -> pen.  bl: builders [g |-> group, p |-> palette, k |-> kind]. *)
EXTENDS Aff, FiniteSets, TLC, Json, CSV

CONSTANTS Names, Extras, Cs, Types, Hows, Turns,    \* hows: all if {}; turns: <<cos, sin, q, right>>, right: a multiple of 90 degrees
          Radii, Pens, Filled,         \* pens 1..Pens, the set of those that fill
          Palettes,                    \* initial palettes
          MaxB, MaxG, MaxE, MaxP, Lim, Depth, Sample, Ops

VARIABLES pt, gr, el, pal, bl, hist
vars == <<pt, gr, el, pal, bl, hist>>
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
On(op) == op \in Ops
Kinds == {"edge", "filled", "clear", "edge_filled", "edge_clear"}
Range(s) == {s[i] : i \in 1..Len(s)}
Keys(g) == {g.kids[i][1] : i \in 1..Len(g.kids)}
PtKeys(g) == {g.pts[i][1] : i \in 1..Len(g.pts)}
Dotted(n) == n \in {"p.q", "."}
Class(t) == CASE t = "rect" -> "rectangle" [] t = "rrect" -> "rectanglerounded" [] OTHER -> t
RECURSIVE Auto(_, _, _)
Auto(c, used, k) == LET n == c \o "#" \o ToString(k) IN IF n \in used THEN Auto(c, used, k + 1) ELSE n
\* the name an element of class c gets in a group; "": refused
Given(n, c, used) == IF n \notin used THEN (IF Dotted(n) THEN "" ELSE n) ELSE Auto(c, used, 0)

\* ---- what is seen: every element below a group with its path, its points in the plane of the root, and whether it is drawn
Where(S, q) == IF q[1] = "live" THEN S.pt[q[2]] ELSE q[2]
Corners(g) == LET a == g[1] b == g[2] IN
   <<a, NormSeq(<<a[1] * b[3], b[2] * a[3], a[3] * b[3]>>), b, NormSeq(<<b[1] * a[3], a[2] * b[3], a[3] * b[3]>>)>>
Outline(S, e, m) == LET w == Mul(m, e.xf) IN
   IF e.t = "curve" THEN [i \in 1..Len(e.g) |-> Img(w, Where(S, e.g[i]))]
   ELSE LET c == Corners(e.g) IN [i \in 1..4 |-> Img(w, c[i])]
RECURSIVE Walk(_, _, _, _, _)
RECURSIVE WalkKids(_, _, _, _, _, _)
Walk(S, g, m, path, hid) == WalkKids(S, g, Mul(m, S.gr[g].xf), path, hid \/ S.gr[g].hid, 1)
WalkKids(S, g, m, path, hid, k) ==
   IF k > Len(S.gr[g].kids) THEN <<>>
   ELSE LET x == S.gr[g].kids[k] p == path \o "." \o x[1] IN
     (IF x[2][1] = "g" THEN Walk(S, x[2][2], m, p, hid)
      ELSE LET e == S.el[x[2][2]] IN <<[path |-> p, i |-> x[2][2], t |-> e.t, pen |-> e.pen, cl |-> e.cl, o |-> Outline(S, e, m), r |-> e.r, hid |-> hid]>>)
     \o WalkKids(S, g, m, path, hid, k + 1)
Now == [pt |-> pt, gr |-> gr, el |-> el, bl |-> bl]
Held == {gr[g].kids[k][2] : <<g, k>> \in {<<g, k>> \in (1..Len(gr)) \X (1..MaxE) : k <= Len(gr[g].kids)}}
Roots == {g \in 1..Len(gr) : <<"g", g>> \notin Held}

\* ---- bounding boxes: <<low x, low y, high x, high y>> as rationals
RECURSIVE BoxOf(_)
BoxOf(s) == LET x == R(s[1][1], s[1][3]) y == R(s[1][2], s[1][3]) IN
   IF Len(s) = 1 THEN <<x, y, x, y>>
   ELSE LET b == BoxOf(Tail(s)) IN <<RMin(x, b[1]), RMin(y, b[2]), RMax(x, b[3]), RMax(y, b[4])>>
BoxPts(b) == LET P(x, y) == NormSeq(<<x[1] * y[2], y[1] * x[2], x[2] * y[2]>>) IN <<P(b[1], b[2]), P(b[3], b[4]), P(b[1], b[4]), P(b[3], b[2])>>
RECURSIVE Box(_)
RECURSIVE KidBoxes(_, _)
Box(x) == IF x[1] = "e" THEN BoxOf(Outline(Now, el[x[2]], Ident))
          ELSE LET b == BoxPts(BoxOf(KidBoxes(x[2], 1))) IN BoxOf([i \in 1..4 |-> Img(gr[x[2]].xf, b[i])])
KidBoxes(g, k) == IF k > Len(gr[g].kids) THEN <<>> ELSE BoxPts(Box(gr[g].kids[k][2])) \o KidBoxes(g, k + 1)
Right(m) == m[1] = 0 \/ m[2] = 0
\* the box is the tight one / its centre is that of the tight one
RECURSIVE Tight(_)
Tight(x) == IF x[1] = "e" THEN el[x[2]].t \in {"rect", "curve"} \/ Right(el[x[2]].xf)
            ELSE gr[x[2]].kids # <<>> /\ Right(gr[x[2]].xf) /\ \A k \in Range(gr[x[2]].kids) : Tight(k[2])
Centred(x) == x[1] = "e" \/ Tight(x)
Half(a, b) == RMul(RAdd(a, b), <<1, 2>>)
Centre(x) == LET b == Box(x) cx == Half(b[1], b[3]) cy == Half(b[2], b[4]) IN NormSeq(<<cx[1] * cy[2], cy[1] * cx[2], cx[2] * cy[2]>>)
\* few enough turns so far for the numbers to stay small
RECURSIVE Small(_)
Small(x) == IF x[1] = "e" THEN LET e == el[x[2]] IN FitsSeq(e.xf, 300) /\ (e.t = "curve" => \A i \in 1..Len(e.g) : FitsSeq(Where(Now, e.g[i]), 300))
            ELSE FitsSeq(gr[x[2]].xf, 300) /\ \A k \in Range(gr[x[2]].kids) : Small(k[2])
RotAbout(t, c) == LET T == <<c[3], 0, c[1], 0, c[3], c[2], c[3]>> U == <<c[3], 0, -c[1], 0, c[3], -c[2], c[3]>> IN Mul(T, Mul(MRotCW(t), U))

-----------------------------------------------------------------------------
Running == Len(hist) < Depth
Look(S) == [b |-> [i \in 1..Len(S.bl) |-> LET g == S.gr[S.bl[i].g] IN
                  [g |-> S.bl[i].g, k |-> S.bl[i].k, p |-> S.bl[i].p, keys |-> g.kids, pts |-> g.pts, hid |-> g.hid, w |-> Walk(S, S.bl[i].g, Ident, "", FALSE)]],
            pt |-> S.pt]
Step(op, a, r) == \E S \in {[pt |-> pt', gr |-> gr', el |-> el', bl |-> bl']} : hist' = Append(hist, [op |-> op, a |-> a, r |-> r, l |-> Look(S)])
Init == pt = <<>> /\ gr = <<>> /\ el = <<>> /\ pal = Palettes /\ bl = <<>> /\ hist = <<>>
NewGroup == [kids |-> <<>>, pts |-> <<>>, hid |-> FALSE, xf |-> Ident]
Refuse(op, a, why) == Running /\ UNCHANGED <<pt, gr, el, pal, bl>> /\ Step(op, a, why)

\* kd: "": left out
Start == \E p \in Some(1..Len(pal)), k \in Some(IF Sample THEN Kinds \cup {""} ELSE {"", "filled"}) :
   /\ Running /\ Len(bl) < MaxB /\ Len(gr) < MaxG
   /\ gr' = Append(gr, NewGroup) /\ bl' = Append(bl, [g |-> Len(gr) + 1, p |-> p, k |-> IF k = "" THEN "edge" ELSE k])
   /\ UNCHANGED <<pt, el, pal>> /\ Step("start", <<p, k>>, 0)
\* a builder over a group that is there
Over == \E g \in Some(1..Len(gr)), p \in Some(1..Len(pal)), k \in Some(IF Sample THEN Kinds \cup {""} ELSE {"", "filled"}) :
   /\ Running /\ On("over") /\ Len(bl) < MaxB
   /\ bl' = Append(bl, [g |-> g, p |-> p, k |-> IF k = "" THEN "edge" ELSE k])
   /\ UNCHANGED <<pt, gr, el, pal>> /\ Step("over", <<g, p, k>>, 0)
SetPen == \E p \in Some(1..Len(pal)), k \in Some(Kinds), x \in Some(1..Pens) :
   /\ Running /\ On("setpen") /\ pal' = [pal EXCEPT ![p][k] = x] /\ UNCHANGED <<pt, gr, el, bl>> /\ Step("setpen", <<p, k, x>>, 0)

\* how: <<"default">>, <<"kind", k>>, <<"pen", x>>, <<"bad">>
AllHows == {<<"default", "">>, <<"bad", "">>} \cup ({"kind"} \X Kinds) \cup ({"pen"} \X (1..Pens))
PenFor(b, how) == CASE how[1] = "default" -> pal[bl[b].p][bl[b].k] [] how[1] = "kind" -> pal[bl[b].p][how[2]] [] OTHER -> how[2]
AddTo(g, n, x) == [gr EXCEPT ![g].kids = Append(@, <<n, x>>)]
\* cl: "", "T" or "F": left out, closed, open
Put(op, a, b, n, how, cl, e, dflt) ==
   IF how[1] = "bad" THEN Refuse(op, a, "ValueError")
   ELSE LET pen == PenFor(b, how)
            closed == IF cl = "" THEN (IF dflt = "filled" THEN pen \in Filled ELSE TRUE) ELSE cl = "T"
            name == Given(n, Class(e.t), Keys(gr[bl[b].g])) IN
     IF ~closed /\ (pen \in Filled \/ e.t # "curve") THEN Refuse(op, a, "AssertionError")
     ELSE IF name = "" THEN Refuse(op, a, "ValueError")
     ELSE /\ Running /\ Len(el) < MaxE
          /\ el' = Append(el, [e EXCEPT !.pen = pen, !.cl = closed])
          /\ gr' = AddTo(bl[b].g, name, <<"e", Len(el) + 1>>)
          /\ UNCHANGED <<pt, pal, bl>> /\ Step(op, a, name)
El(t, g, r) == [t |-> t, pen |-> 0, cl |-> TRUE, g |-> g, r |-> r, xf |-> Ident]
\* corners: where a point is, or plain coordinates; 0: coordinates
At(i, x, y) == IF i = 0 THEN Pt(x, y) ELSE pt[i]
Shape == \E b \in Some(1..Len(bl)), t \in Some(Types), n \in Some(Names), how \in Some(IF Hows = {} THEN AllHows ELSE Hows), cl \in Some({"", "", "", "T", "F"}) :
   \E i \in Some({0} \cup 1..Len(pt)), j \in Some({0} \cup 1..Len(pt)), x \in Some(Cs), y \in Some(Cs) : \E u \in Some(Cs \ {x}), v \in Some(Cs \ {y}), r \in Some(Radii) :
   LET p == At(i, x, y) q == At(j, u, v) IN
   /\ On("shape") /\ p[1] * q[3] # q[1] * p[3] /\ p[2] * q[3] # q[2] * p[3]
   /\ Put("shape", <<b, t, n, how, cl, <<i, x, y>>, <<j, u, v>>, r>>, b, n, how, cl, El(t, <<p, q>>, IF t = "rrect" THEN r ELSE 0), "closed")
\* a curve through three or four points, some of them live
Curve == \E b \in Some(1..Len(bl)), n \in Some(Names), how \in Some(IF Hows = {} THEN AllHows ELSE Hows), cl \in Some({"", "", "T", "F"}), m \in Some(IF Sample THEN {3, 4} ELSE {3}) :
   \E i1 \in Some({0} \cup 1..Len(pt)), i2 \in Some({0} \cup 1..Len(pt)), x1 \in Some(Cs), y1 \in Some(Cs), x2 \in Some(Cs), y2 \in Some(Cs), x3 \in Some(Cs), y3 \in Some(Cs), x4 \in Some(Cs), y4 \in Some(Cs) :
   LET L(i, x, y) == IF i = 0 THEN <<"at", Pt(x, y)>> ELSE <<"live", i>>
       g == SubSeq(<<L(i1, x1, y1), L(i2, x2, y2), L(0, x3, y3), L(0, x4, y4)>>, 1, m) IN
   On("curve") /\ Put("curve", <<b, n, how, cl, g>>, b, n, how, cl, El("curve", g, 0), "filled")
Sub == \E b \in Some(1..Len(bl)), n \in Some(Names), p \in Some(0..Len(pal)), k \in Some(IF Sample THEN Kinds \cup {""} ELSE {"", "edge"}) :
   LET name == Given(n, "group", Keys(gr[bl[b].g])) a == <<b, n, p, k>> IN
   /\ On("sub")
   /\ IF name = "" THEN Refuse("sub", a, "ValueError")
      ELSE /\ Running /\ Len(bl) < MaxB /\ Len(gr) < MaxG
           /\ gr' = Append(AddTo(bl[b].g, name, <<"g", Len(gr) + 1>>), NewGroup)
           /\ bl' = Append(bl, [g |-> Len(gr) + 1, p |-> IF p = 0 THEN bl[b].p ELSE p, k |-> IF k = "" THEN bl[b].k ELSE k])
           /\ UNCHANGED <<pt, el, pal>> /\ Step("sub", a, name)
Point == \E b \in Some(1..Len(bl)), n \in Some(Names), x \in Some(Cs), y \in Some(Cs) :
   /\ On("point") /\ Len(pt) < MaxP
   /\ IF Dotted(n) \/ n \in PtKeys(gr[bl[b].g]) THEN Refuse("point", <<b, n, x, y>>, "AssertionError")
      ELSE /\ Running /\ pt' = Append(pt, Pt(x, y)) /\ gr' = [gr EXCEPT ![bl[b].g].pts = Append(@, <<n, Len(pt) + 1>>)]
           /\ UNCHANGED <<el, pal, bl>> /\ Step("point", <<b, n, x, y>>, 0)
Move == \E i \in Some(1..Len(pt)), x \in Some(Cs), y \in Some(Cs) :
   Running /\ On("point") /\ pt' = [pt EXCEPT ![i] = Pt(x, y)] /\ UNCHANGED <<gr, el, pal, bl>> /\ Step("move", <<i, x, y>>, 0)
Hide == \E b \in Some(1..Len(bl)) :
   Running /\ On("hide") /\ gr' = [gr EXCEPT ![bl[b].g].hid = TRUE] /\ UNCHANGED <<pt, el, pal, bl>> /\ Step("hide", <<b>>, 0)

\* ---- turned copies: independent of what they were made from, and of its points
Freeze(e, m) == IF e.t = "curve" THEN [e EXCEPT !.g = [i \in 1..Len(e.g) |-> <<"at", Img(Mul(m, e.xf), Where(Now, e.g[i]))>>], !.xf = Ident]
                ELSE [e EXCEPT !.xf = Mul(m, e.xf)]
\* copies of the group g and all below, appended to s = [g, e]; the copy's own index is Len(s.g) + 1 at the start
RECURSIVE CopyG(_, _, _)
RECURSIVE CopyK(_, _, _, _)
CopyG(s, g, xf) == CopyK([s EXCEPT !.g = Append(@, [gr[g] EXCEPT !.kids = <<>>, !.xf = xf])], g, Len(s.g) + 1, 1)
CopyK(s, g, c, k) ==
   IF k > Len(gr[g].kids) THEN s
   ELSE LET x == gr[g].kids[k] IN
     IF x[2][1] = "e" THEN CopyK([s EXCEPT !.e = Append(@, Freeze(el[x[2][2]], Ident)), !.g[c].kids = Append(@, <<x[1], <<"e", Len(s.e) + 1>>>>)], g, c, k + 1)
     ELSE LET t == CopyG([s EXCEPT !.g[c].kids = Append(@, <<x[1], <<"g", Len(s.g) + 1>>>>)], x[2][2], gr[x[2][2]].xf) IN CopyK(t, g, c, k + 1)
NameOf(x) == LET g == CHOOSE g \in 1..Len(gr) : \E k \in Range(gr[g].kids) : k[2] = x IN (CHOOSE k \in Range(gr[g].kids) : k[2] = x)[1]
Things == {x \in Held : Small(x) /\ Centred(x)}
Rotate == \E b \in Some(1..Len(bl)), x \in Some(Things), t \in Some(Turns), show \in Some(BOOLEAN), ex \in Some(Extras) :
   LET c == Centre(x)
       m == RotAbout(t, c)
       isg == x[1] = "g"
       s0 == [g |-> gr, e |-> el]
       s1 == IF isg THEN CopyG(s0, x[2], Mul(m, gr[x[2]].xf)) ELSE [s0 EXCEPT !.e = Append(@, Freeze(el[x[2]], m))]
       new == IF isg THEN <<"g", Len(gr) + 1>> ELSE <<"e", Len(el) + 1>>
       n1 == Given(NameOf(x) \o "_r" \o ex, IF isg THEN "group" ELSE Class(el[x[2]].t), Keys(gr[bl[b].g]))
       s2 == [s1 EXCEPT !.g[bl[b].g].kids = Append(@, <<n1, new>>)]
       n2 == Given(NameOf(x) \o "_c" \o ex, "ellipse", Keys(s2.g[bl[b].g]))
       dot == [El("ellipse", <<PSub(c, <<1, 1, 1>>), PAdd(c, <<1, 1, 1>>)>>, 0) EXCEPT !.pen = IF isg THEN 0 ELSE el[x[2]].pen]
       s3 == IF show THEN [s2 EXCEPT !.g[bl[b].g].kids = Append(@, <<n2, <<"e", Len(s2.e) + 1>>>>), !.e = Append(@, dot)] ELSE s2
   IN /\ Running /\ On("rotate") /\ FitsSeq(c, 200) /\ FitsSeq(m, 20000)
      /\ (\A i \in 1..Len(s3.e) : FitsSeq(s3.e[i].xf, Lim) /\ (s3.e[i].t = "curve" => \A j \in 1..Len(s3.e[i].g) : FitsSeq(IF s3.e[i].g[j][1] = "live" THEN pt[s3.e[i].g[j][2]] ELSE s3.e[i].g[j][2], Lim)))
      /\ (\A i \in 1..Len(s3.g) : FitsSeq(s3.g[i].xf, Lim))
      /\ Len(s3.e) <= MaxE /\ Len(s3.g) <= MaxG
      /\ gr' = s3.g /\ el' = s3.e /\ UNCHANGED <<pt, pal, bl>>
      /\ Step("rotate", <<b, x, t, show, ex>>, <<new, n1, IF show THEN n2 ELSE "">>)

\* ---- replacing: only where a single element of the group is meant
RECURSIVE Below(_)
Below(g) == UNION {IF k[2][1] = "g" THEN Below(k[2][2]) ELSE {<<k[2][2], k[1], el[k[2][2]].t, g>>} : k \in Range(gr[g].kids)}
Alike(y, z) == y[2] = z[2] /\ y[3] = z[3]
Single(b) == {y \in Below(bl[b].g) : \A z \in Below(bl[b].g) : Alike(y, z) => z = y}
Replace == \E b \in Some(1..Len(bl)) : \E y \in Some(Single(b)), n \in Some(Names), x \in Some(Cs), y0 \in Some(Cs), p \in Some(1..Pens) :
   LET g == y[4] k == CHOOSE k \in 1..Len(gr[g].kids) : gr[g].kids[k][2] = <<"e", y[1]>>
       a == <<b, y[1], n, <<x, y0>>, p>> IN
   /\ Running /\ On("replace") /\ Len(el) < MaxE
   /\ IF Dotted(n) \/ (n # y[2] /\ n \in Keys(gr[g])) THEN Refuse("replace", a, "ValueError")
      ELSE /\ el' = Append(el, [El("rect", <<Pt(x, y0), Pt(x + 2, y0 + 3)>>, 0) EXCEPT !.pen = p])
           /\ gr' = [gr EXCEPT ![g].kids[k] = <<n, <<"e", Len(el) + 1>>>>]
           /\ UNCHANGED <<pt, pal, bl>> /\ Step("replace", a, 1)

Next == Start \/ Over \/ SetPen \/ Shape \/ Curve \/ Sub \/ Point \/ Move \/ Hide \/ Rotate \/ Replace
WalkNext == Next \/ Shape \/ Curve \/ Rotate \/ Sub \/ Point
Spec == Init /\ [][Next]_vars
Play == Init /\ [][WalkNext]_vars
-----------------------------------------------------------------------------
Unique == \A g \in 1..Len(gr) : \A i, j \in 1..Len(gr[g].kids) : i # j => gr[g].kids[i][1] # gr[g].kids[j][1]
\* every element and group stands in one place at most
Once == \A g, h \in 1..Len(gr) : \A i \in 1..Len(gr[g].kids), j \in 1..Len(gr[h].kids) : gr[g].kids[i][2] = gr[h].kids[j][2] => g = h /\ i = j
FilledClosed == \A i \in 1..Len(el) : el[i].pen \in Filled => el[i].cl
\* pens and corners of what is there never change, and elements stay where they are unless replaced or moved with a live point
Kept == [][\A i \in 1..Len(el) : el'[i] = el[i]]_vars
Stay == [][\A g \in 1..Len(gr) : Len(gr'[g].kids) >= Len(gr[g].kids) /\ (hist'[Len(hist')].op # "replace" => SubSeq(gr'[g].kids, 1, Len(gr[g].kids)) = gr[g].kids)]_vars
\* a turned copy has the centre of what it was made from (a curve in general only if turned by right angles)
SameCentre == hist = <<>> \/ LET s == hist[Len(hist)] IN (s.op = "rotate" /\ Centred(s.r[1]) /\ (0 \in {s.a[3][1], s.a[3][2]} \/ (s.a[2][1] = "e" /\ el[s.a[2][2]].t # "curve"))) => Centre(s.a[2]) = Centre(s.r[1])
View == <<pt, gr, el, pal, bl, Len(hist)>>
Emit(h) == CSVWrite("%1$s", <<ToJson(h)>>, "out.ndjson")
EmitStep == Emit(hist')
EmitFull == Len(hist) = Depth => Emit(hist)
==========================================================================
