------------------------------ MODULE ModelSys ------------------------------
(* Models (scene graphs) as a heap of elements.

   A node is [t, n, pb, cl, x, g, k, kids, hid, pts, rep, wild]:
     t     "curve", "rect", "ellipse", "rrect", "group" or "holes"
     n     name;  pb: index of its pen and brush in Pens;  cl: closed
     x     its own transform (Aff)
     g     geometry.  curve: sequence of <<cx, cy, lx, ly, rx, ry>> (centre and handle vectors);
           rect, ellipse: <<x1, y1, x2, y2>>; rrect: <<x1, y1, x2, y2, radius>>
     k     kinds of a curve's control points
     kids  identities of the children (of a shape with holes: the outside first)
     hid   hidden;  pts: named points <<name, x, y>>
     rep   whether the program knows how the element represents its shape (transform() may choose)
     wild  the shape was scribbled on: it is no longer specified
   Copies of a model get fresh identities: nothing is shared. roots are the models that the program holds. *)
EXTENDS Aff, TLC, Json, CSV, FiniteSets

CONSTANTS Leaves,                      \* literal leaves: records [t, g, k, cl] (used when ~Sample)
          Types,                       \* kinds of elements to build
          Cs, Ds, Lens, Kinds,         \* numbers for random literals
          Pens,                        \* sequence of [p, w, b]: pen colour or "", pen width <<n, d>>, brush colour or ""
          Maps,                        \* affine maps
          Ctxs,                        \* sequence of [m, s]: matrices of drawing contexts, with the average scale <<n, d>>
          MaxRoots, MaxNodes, MaxKids, MaxDepth, Depth, Lim, Sample, Ops

VARIABLES el, roots, ctx, hist
vars == <<el, roots, ctx, hist>>

Clear == "transparent"
\* (mentioning the state keeps TLC from evaluating the random choice once and for all)
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
On(op) == op \in Ops
Ids == 1..Len(el)
Range(s) == {s[i] : i \in 1..Len(s)}
IsLeaf(n) == n.t \in {"curve", "rect", "ellipse", "rrect"}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))

RECURSIVE Tree(_, _)          \* identities in document order
Tree(h, i) == <<i>> \o Cat([j \in 1..Len(h[i].kids) |-> Tree(h, h[i].kids[j])])
RECURSIVE Height(_, _)
Height(h, i) == 1 + (LET s == {Height(h, h[i].kids[j]) : j \in 1..Len(h[i].kids)} IN IF s = {} THEN 0 ELSE CHOOSE m \in s : \A o \in s : o <= m)
Live(h, rs) == UNION {Range(Tree(h, r)) : r \in Range(rs)}
Parents(h, i) == {j \in 1..Len(h) : i \in Range(h[j].kids)}
LiveParents(i) == Parents(el, i) \cap Live(el, roots)
RECURSIVE ChainRep(_)
ChainRep(i) == \A j \in LiveParents(i) : el[j].rep /\ ChainRep(j)

-----------------------------------------------------------------------------
(* Outlines *)
\* control points in the element's own frame: [q, kap, p], p of <<cx, cy, lx, ly, rx, ry>> over q, handle vectors to be
\* multiplied by the circle constant 4/3 tan(22.5 deg) if kap
Lo(a, b) == Min2(a, b)
Hi(a, b) == Max2(a, b)
Corners(g) == <<<<g[1], g[2]>>, <<g[1], g[4]>>, <<g[3], g[4]>>, <<g[3], g[2]>>>>
EllipseCps(g) ==
  LET cx == g[1] + g[3]  cy == g[2] + g[4]                    \* twice the centre and the radii
      rx == Abs(g[3] - g[1])  ry == Abs(g[4] - g[2])
  IN <<<<cx + rx, cy, 0, ry, 0, -ry>>, <<cx, cy - ry, rx, 0, -rx, 0>>,
       <<cx - rx, cy, 0, -ry, 0, ry>>, <<cx, cy + ry, -rx, 0, rx, 0>>>>
\* rounded rectangle: around each corner b (neighbours a, c) one quarter circle of radius min(radius, half the sides),
\* over 2 to allow for half sides.  The handles along a straight side are its slack, at most the radius.
RRectCps(g) ==
  LET P == Corners(g)
      r == 2 * g[5]
      K(i) == ((i - 1) % 4) + 1
      Side(i, j) == Abs(P[i][1] - P[j][1]) + Abs(P[i][2] - P[j][2])     \* length of the side = twice its half
      Un(i, j) == <<Sgn(P[j][1] - P[i][1]), Sgn(P[j][2] - P[i][2])>>    \* unit vector from i to j
      R2(i) == Min2(r, Min2(Side(i, K(i + 3)), Side(i, K(i + 1))))      \* twice the radius at corner i
      Sl(i, j) == Min2(Side(i, j) - R2(i), R2(i))                        \* twice the slack
      At(i) == LET u == Un(i, K(i + 3)) v == Un(i, K(i + 1)) rr == R2(i)
                   s == Sl(i, K(i + 3)) t == Sl(i, K(i + 1)) IN
        <<<<2*P[i][1] + rr*u[1], 2*P[i][2] + rr*u[2], s*u[1], s*u[2], -(rr*u[1]), -(rr*u[2])>>,
          <<2*P[i][1] + rr*v[1], 2*P[i][2] + rr*v[2], -(rr*v[1]), -(rr*v[2]), t*v[1], t*v[2]>>>>
      all == At(1) \o At(2) \o At(3) \o At(4)
      n == Len(all)
      Same(i, j) == all[i][1] = all[j][1] /\ all[i][2] = all[j][2]
      Nxt(i) == (i % n) + 1
      Prv(i) == ((i + n - 2) % n) + 1
      \* points that coincide are merged into one
      One(i) == IF Same(i, Nxt(i)) THEN <<<<all[i][1], all[i][2], all[i][3], all[i][4], all[Nxt(i)][5], all[Nxt(i)][6]>>>>
                ELSE IF Same(i, Prv(i)) THEN <<>> ELSE <<all[i]>>
  IN Cat([i \in 1..n |-> One(i)])
Base(n) ==
  CASE n.t = "curve" -> [q |-> 1, kap |-> FALSE, p |-> n.g]
    [] n.t = "rect" -> [q |-> 1, kap |-> FALSE, p |-> [i \in 1..4 |-> LET c == Corners(n.g)[i] IN <<c[1], c[2], 0, 0, 0, 0>>]]
    [] n.t = "ellipse" -> [q |-> 2, kap |-> TRUE, p |-> EllipseCps(n.g)]
    [] n.t = "rrect" -> [q |-> 2, kap |-> TRUE, p |-> RRectCps(n.g)]
\* the same under map m
Under(m, b) ==
  [q |-> b.q * m[7], kap |-> b.kap, p |-> [i \in 1..Len(b.p) |-> LET p == b.p[i] IN
    <<m[1]*p[1] + m[2]*p[2] + m[3]*b.q, m[4]*p[1] + m[5]*p[2] + m[6]*b.q,
      m[1]*p[3] + m[2]*p[4], m[4]*p[3] + m[5]*p[4], m[1]*p[5] + m[2]*p[6], m[4]*p[5] + m[5]*p[6]>>]]
\* box of the control polygon in the own frame, over 1
IntBox(n) ==
  IF n.t = "curve" THEN
    LET X == UNION {{n.g[i][1], n.g[i][1] + n.g[i][3], n.g[i][1] + n.g[i][5]} : i \in 1..Len(n.g)}
        Y == UNION {{n.g[i][2], n.g[i][2] + n.g[i][4], n.g[i][2] + n.g[i][6]} : i \in 1..Len(n.g)}
        Mn(S) == CHOOSE a \in S : \A b \in S : a <= b
        Mx(S) == CHOOSE a \in S : \A b \in S : a >= b
    IN <<Mn(X), Mn(Y), Mx(X), Mx(Y), 1>>
  ELSE <<Lo(n.g[1], n.g[3]), Lo(n.g[2], n.g[4]), Hi(n.g[1], n.g[3]), Hi(n.g[2], n.g[4]), 1>>
\* box of the image of box b = <<xl, yl, xh, yh, q>> under m
BoxImg(m, b) ==
  LET X == {m[1]*x + m[2]*y + m[3]*b[5] : x \in {b[1], b[3]}, y \in {b[2], b[4]}}
      Y == {m[4]*x + m[5]*y + m[6]*b[5] : x \in {b[1], b[3]}, y \in {b[2], b[4]}}
      Mn(S) == CHOOSE a \in S : \A c \in S : a <= c
      Mx(S) == CHOOSE a \in S : \A c \in S : a >= c
  IN NormSeq(<<Mn(X), Mn(Y), Mx(X), Mx(Y), b[5] * m[7]>>)
BoxUnion(a, b) == NormSeq(<<Min2(a[1]*b[5], b[1]*a[5]), Min2(a[2]*b[5], b[2]*a[5]), Max2(a[3]*b[5], b[3]*a[5]), Max2(a[4]*b[5], b[4]*a[5]), a[5]*b[5]>>)
RECURSIVE Hull(_)
Hull(s) == IF Len(s) = 1 THEN s[1] ELSE BoxUnion(Head(s), Hull(Tail(s)))
BoxIn(a, b) == a[1]*b[5] > b[1]*a[5] /\ a[2]*b[5] > b[2]*a[5] /\ a[3]*b[5] < b[3]*a[5] /\ a[4]*b[5] < b[4]*a[5]
\* smallest and largest acceptable box; <<>> where there is none
RECURSIVE Boxed(_, _)
Boxed(h, i) ==
  LET n == h[i] IN
  IF IsLeaf(n) THEN BoxImg(n.x, IntBox(n))
  ELSE LET bs == [j \in 1..Len(n.kids) |-> Boxed(h, n.kids[j])] IN
       IF bs = <<>> \/ <<>> \in Range(bs) THEN <<>>
       ELSE IF n.t = "group" THEN LET b == Hull(bs) IN IF FitsSeq(b, 4 * Lim) THEN BoxImg(n.x, b) ELSE <<>>
       ELSE IF \A j \in 2..Len(bs) : BoxIn(bs[j], bs[1]) THEN BoxImg(n.x, bs[1]) ELSE <<>>

-----------------------------------------------------------------------------
(* Traversals *)
\* every node below i with the map of its surroundings (W: including its own), the dotted name and depth
RECURSIVE Visit(_, _, _, _, _)
Visit(h, i, A, name, d) ==
  LET n == h[i]  W == Mul(A, n.x) IN
  <<[i |-> i, a |-> A, w |-> W, name |-> name, d |-> d]>> \o
  Cat([j \in 1..Len(n.kids) |-> LET c == h[n.kids[j]] IN
       Visit(h, n.kids[j], W, name \o "." \o (IF n.t = "holes" THEN (IF j = 1 THEN "outside." ELSE "inside.") ELSE "") \o c.n, d + 1)])
RECURSIVE FitsTree(_, _, _)
FitsTree(h, i, A) ==
  /\ AFits(h[i].x, Lim)
  /\ LET W == Mul(A, h[i].x) IN AFits(W, Lim) /\ \A j \in Range(h[i].kids) : FitsTree(h, j, W)

\* the paths drawn for i, in order: leaves traced one after the other, pen and brush (a shape with holes: one filled path of
\* all leaves without pen, then every edge once, without brush; hidden groups: nothing)
RECURSIVE PathsOf(_, _)
PathsOf(h, i) ==
  LET n == h[i]  P == Pens[n.pb] IN
  CASE IsLeaf(n) -> <<[src |-> <<i>>, pen |-> P.p, w |-> P.w, fill |-> P.b, cl |-> n.cl]>>
    [] n.t = "group" -> IF n.hid THEN <<>> ELSE Cat([j \in 1..Len(n.kids) |-> PathsOf(h, n.kids[j])])
    [] n.t = "holes" ->
         LET raw == Cat([j \in 1..Len(n.kids) |-> PathsOf(h, n.kids[j])])
             edges == [j \in 1..Len(raw) |-> [raw[j] EXCEPT !.pen = P.p, !.w = P.w, !.fill = ""]]
         IN IF P.b = "" THEN edges
            ELSE <<[src |-> Cat([j \in 1..Len(raw) |-> raw[j].src]), pen |-> "", w |-> <<0, 1>>, fill |-> P.b, cl |-> raw[1].cl]>> \o edges

\* width of a stroke in pixels under a matrix of average scale s; halves do not occur (Assume below)
Round(r) == LET f == r[1] \div r[2] IN IF 2 * (r[1] - f * r[2]) > r[2] THEN f + 1 ELSE f
WidthOf(w, s) == IF w[1] > 0 THEN w ELSE RMul(<<-w[1], w[2]>>, s)
Pixels(w, s) == Max2(1, Round(WidthOf(w, s)))
ASSUME \A i \in 1..Len(Pens), j \in 1..Len(Ctxs) : LET r == WidthOf(Pens[i].w, Ctxs[j].s) IN 2 * (r[1] % r[2]) # r[2]
ASSUME \A j \in 1..Len(Ctxs) : LET m == Ctxs[j].m s == Ctxs[j].s  c1 == m[1]*m[1] + m[4]*m[4]  c2 == m[2]*m[2] + m[5]*m[5] IN
   \* (|col1| + |col2|) / 2q = s for whole column lengths
   \E u, v \in 1..200 : u * u = c1 /\ v * v = c2 /\ (u + v) * s[2] = 2 * m[7] * s[1]
\* what drawing i issues: fills and strokes [k, src, col, w]; mode is "prod" or "plain", shadow a colour or ""
Cmds(h, i, s, prod, shadow) ==
  LET P == PathsOf(h, i)
      One(p) ==
        LET wd == IF prod THEN Pixels(p.w, s) ELSE 1 IN
        (IF p.fill # "" THEN <<[k |-> "fill", src |-> p.src, col |-> IF shadow # "" /\ p.fill # Clear THEN shadow ELSE p.fill, w |-> 0]>> ELSE <<>>) \o
        (IF p.pen # "" THEN <<[k |-> IF p.fill # "" THEN "ring" ELSE "stroke", src |-> p.src, col |-> p.pen, w |-> wd]>> ELSE <<>>)
  IN Cat([j \in 1..Len(P) |-> One(P[j])])

-----------------------------------------------------------------------------
(* What the program sees of each model it holds *)
Show(h, r) ==
  LET V == Visit(h, r, Ident, h[r].n, 0) IN
  [r |-> r,
   b |-> Boxed(h, r),
   v |-> [k \in 1..Len(V) |-> LET n == h[V[k].i] IN
      [i |-> V[k].i, d |-> V[k].d, t |-> n.t, n |-> n.n, pb |-> n.pb, cl |-> n.cl, x |-> n.x, g |-> n.g, k |-> n.k, nk |-> Len(n.kids),
       hid |-> n.hid, pts |-> n.pts, rep |-> n.rep, wild |-> n.wild, path |-> V[k].name, a |-> V[k].a,
       o |-> IF IsLeaf(n) THEN Under(V[k].w, Base(n)) ELSE [q |-> 1, kap |-> FALSE, p |-> <<>>]]],
   c |-> IF On("draw") THEN [j \in 1..Len(Ctxs) |-> Cmds(h, r, Ctxs[j].s, TRUE, "")] ELSE <<>>,
   c1 |-> IF On("draw") THEN Cmds(h, r, <<1, 1>>, FALSE, "") ELSE <<>>,
   cs |-> IF On("draw") THEN Cmds(h, r, <<1, 1>>, FALSE, "shade") ELSE <<>>]

Init == el = <<>> /\ roots = <<>> /\ ctx = 1 /\ hist = <<>>
Running == Len(hist) < Depth
\* what happened, with the state after it; what is to be seen then is worked out when the behaviour is written (Seen)
Step(op, a) == hist' = Append(hist, [op |-> op, a |-> a, c |-> ctx', h |-> el', rs |-> roots'])
Seen(s) == [op |-> s.op, a |-> s.a, c |-> s.c, o |-> [k \in 1..Len(s.rs) |-> Show(s.h, s.rs[k])]]
SeenAll(hs) == [k \in 1..Len(hs) |-> Seen(hs[k])]
Becomes(op, a, h, rs) ==
  /\ Running
  /\ Len(rs) <= MaxRoots
  /\ Len(h) <= MaxNodes
  /\ \A r \in Range(rs) : FitsTree(h, r, Ident) /\ Height(h, r) <= MaxDepth
  /\ el' = h /\ roots' = rs /\ UNCHANGED ctx
  /\ Step(op, a)

Leaf(t, n, pb, cl, x, g, k) == [t |-> t, n |-> n, pb |-> pb, cl |-> cl, x |-> x, g |-> g, k |-> k, kids |-> <<>>, hid |-> FALSE, pts |-> <<>>,
                                rep |-> TRUE, wild |-> FALSE]
Branch(t, n, pb, cl, x, kids, hid, pts) == [t |-> t, n |-> n, pb |-> pb, cl |-> cl, x |-> x, g |-> <<>>, k |-> <<>>, kids |-> kids, hid |-> hid, pts |-> pts,
                                rep |-> TRUE, wild |-> FALSE]
NewName == "e" \o ToString(Len(el) + 1)
Filled(pb) == Pens[pb].b # ""

-----------------------------------------------------------------------------
(* Literals *)
RandCp(t) == <<RandomElement(Cs), RandomElement(Cs), RandomElement(Ds), RandomElement(Ds), RandomElement(Ds), RandomElement(Ds)>>
RandKind(t) == RandomElement(Kinds)
RECURSIVE RandCps(_), RandKinds(_)
RandCps(n) == IF n = 0 THEN <<>> ELSE <<RandCp(n)>> \o RandCps(n - 1)
RandKinds(n) == IF n = 0 THEN <<>> ELSE <<RandKind(n)>> \o RandKinds(n - 1)
RandBox(t) == LET x == RandomElement(Cs) y == RandomElement(Cs) w == RandomElement({-7, -4, -2, -1, 1, 3, 6, 8}) v == RandomElement({-8, -5, -2, 1, 2, 4, 6}) IN <<x, y, x + w, y + v>>
RandLeaf(t) ==
  LET n == RandomElement(Lens) IN
  CASE t = "curve" -> [t |-> t, g |-> RandCps(n), k |-> RandKinds(n), cl |-> RandomElement({TRUE, FALSE})]
    [] t \in {"rect", "ellipse"} -> [t |-> t, g |-> RandBox(0), k |-> <<>>, cl |-> TRUE]
    [] t = "rrect" -> [t |-> t, g |-> Append(RandBox(0), RandomElement({0, 1, 2, 3})), k |-> <<>>, cl |-> TRUE]
LeafTypes == Types \cap {"curve", "rect", "ellipse", "rrect"}
LeafLits(u) == IF Sample THEN {RandLeaf(RandomElement(LeafTypes))} ELSE Leaves
PenIds == 1..Len(Pens)

NewLeaf == \E L \in LeafLits(0) : \E pb \in Some({p \in PenIds : L.cl \/ ~Filled(p)}) : \E x \in Some(Maps) :
   Becomes("leaf", <<>>, Append(el, Leaf(L.t, NewName, pb, L.cl, x, L.g, L.k)), Append(roots, Len(el) + 1))

\* a group of some of the models held so far, which are then reached through it
NewGroup == \E n \in Some(0..Min2(MaxKids, Len(roots))) : \E f \in Some({f \in [1..n -> 1..Len(roots)] : \A i, j \in 1..n : i # j => f[i] # f[j]}) :
  \E cl \in Some({FALSE, TRUE}) : \E pb \in Some({p \in PenIds : cl \/ ~Filled(p)}), x \in Some(Maps), hid \in Some({FALSE, TRUE}), np \in Some(0..2) :
   /\ On("group")
   /\ LET kids == [i \in 1..n |-> roots[f[i]]]
          pts == [i \in 1..np |-> <<"p" \o ToString(i), i, 3 - i>>]
          nr == SelectSeq(roots, LAMBDA r : r \notin Range(kids))
      IN /\ \A i, j \in 1..n : i # j => el[kids[i]].n # el[kids[j]].n
         /\ (~hid \/ ~Sample \/ RandomElement(1..3) = 1)
         /\ Becomes("group", kids, Append(el, Branch("group", NewName, pb, cl, x, kids, hid, pts)), Append(nr, Len(el) + 1))

\* a shape with holes: its outside is a simple shape, its holes simple shapes or groups of them; they carry its pen and brush
RECURSIVE InHoles(_)
InHoles(i) == \E j \in LiveParents(i) : el[j].t = "holes" \/ InHoles(j)
RECURSIVE NoHoles(_)
NoHoles(i) == el[i].t # "holes" /\ \A j \in Range(el[i].kids) : NoHoles(j)
NewHoles == \E n \in Some(1..Min2(MaxKids, Len(roots))) : \E f \in Some({f \in [1..n -> 1..Len(roots)] : (\A i, j \in 1..n : i # j => f[i] # f[j]) /\ el[roots[f[1]]].cl}) :
  \E pb \in Some(PenIds), x \in Some(Maps) :
   /\ On("holes")
   /\ LET kids == [i \in 1..n |-> roots[f[i]]]
          nr == SelectSeq(roots, LAMBDA r : r \notin Range(kids))
          h == [i \in Ids |-> IF i \in Range(kids) THEN [el[i] EXCEPT !.pb = pb] ELSE el[i]]
      IN /\ IsLeaf(el[kids[1]]) /\ \A i \in 2..n : NoHoles(kids[i]) /\ (IsLeaf(el[kids[i]]) => el[kids[i]].cl)
         \* a brush needs closed parts when they are copied
         /\ (Filled(pb) => \A i \in 1..n : el[kids[i]].cl)
         /\ Becomes("holes", kids, Append(h, Branch("holes", NewName, pb, TRUE, x, kids, FALSE, <<>>)), Append(nr, Len(el) + 1))
\* the same with an outside and holes built on the spot, the holes lying inside
NewNest == \E n \in Some(0..MaxKids - 1), gk \in Some({0, 2, 3}), pb \in Some(PenIds), x \in Some(Maps), y \in Some({m \in Maps : Abs(m[1]) + Abs(m[2]) < 4 * m[7]}), t \in Some(LeafTypes \ {"curve"}) :
   /\ On("holes")
   /\ (Sample \/ (el = <<>> /\ n + gk <= 2))
   /\ LET b == Len(el)
          Nm(i) == "e" \o ToString(b + i)
          out == Leaf("rect", Nm(1), pb, TRUE, y, <<-40, -30, 40, 30>>, <<>>)
          In(i, z, p) == LET c == 8 * (i - 1) - 22 g == <<c, -3 + i, c + 5, 4>> IN Leaf(t, Nm(1 + i), p, TRUE, z, IF t = "rrect" THEN Append(g, 1) ELSE g, <<>>)
          \* the last hole may be a group of gk shapes
          grp == IF gk = 0 THEN <<>> ELSE <<Branch("group", Nm(n + gk + 2), pb, TRUE, y, [i \in 1..gk |-> b + 1 + n + i], FALSE, <<>>)>>
          kids == [i \in 1..n + 1 |-> b + i] \o (IF gk = 0 THEN <<>> ELSE <<b + n + gk + 2>>)
          h == <<out>> \o [i \in 1..n |-> In(i, y, pb)] \o [i \in 1..gk |-> In(n + i, Ident, IF pb = 1 THEN Len(Pens) ELSE pb - 1)] \o grp
      IN Becomes("nest", <<n, gk>>, el \o h \o <<Branch("holes", Nm(Len(h) + 1), pb, TRUE, x, kids, FALSE, <<>>)>>, Append(roots, b + Len(h) + 1))

-----------------------------------------------------------------------------
(* Copies *)
\* h extended by a clone of tree i; the clone of the root comes last.  opq: the clones may
\* represent their shapes in another way
RECURSIVE CloneInto(_, _, _), CloneKids(_, _, _, _)
CloneInto(h, i, opq) ==
  LET r == CloneKids(h, i, h[i].kids, opq) IN Append(r.h, [h[i] EXCEPT !.kids = r.ids, !.rep = @ /\ ~opq])
CloneKids(h, i, ks, opq) ==
  IF ks = <<>> THEN [h |-> h, ids |-> <<>>]
  ELSE LET h1 == CloneInto(h, Head(ks), opq)  r == CloneKids(h1, i, Tail(ks), opq) IN [h |-> r.h, ids |-> <<Len(h1)>> \o r.ids]

AnyLive == Live(el, roots)
Tame(i) == \A j \in Range(Tree(el, i)) : ~el[j].wild
\* a copy of a model or of a part of one becomes a model of its own
Copy == \E i \in Some(AnyLive) :
   /\ On("copy") /\ Tame(i)
   /\ LET h == CloneInto(el, i, FALSE) IN Becomes("copy", <<i>>, h, Append(roots, Len(h)))
Transform == \E i \in Some(AnyLive), m \in Some(Maps) :
   /\ On("transform") /\ Tame(i)
   /\ LET h == CloneInto(el, i, TRUE)  k == Len(h)
          h2 == [h EXCEPT ![k].x = Mul(m, @)]
      IN Becomes("transform", <<i, m>>, h2, Append(roots, k))

\* undo: element i becomes again what s is.  Children of i are gone; it gets fresh ones.
Restore == \E i \in Some(AnyLive) : \E s \in Some({r \in Range(roots) : el[r].t = el[i].t /\ Tame(r)}) :
   /\ On("restore")
   /\ s \notin Range(Tree(el, i)) /\ i \notin Range(Tree(el, s))
   /\ (el[i].t = "curve" => Len(el[i].g) = Len(el[s].g))
   /\ (el[i].n = el[s].n \/ i \in Range(roots))
   \* parts of a shape with holes carry its pen and brush
   /\ \A j \in LiveParents(i) : el[j].t = "holes" => el[s].pb = el[i].pb /\ el[s].cl
   /\ (InHoles(i) => NoHoles(s))
   /\ LET r == CloneKids(el, s, el[s].kids, FALSE)
          n == [r.h[s] EXCEPT !.kids = r.ids]
      IN Becomes("restore", <<i, s>>, [r.h EXCEPT ![i] = n], roots)

-----------------------------------------------------------------------------
(* Edits, on any live node.  Representations chosen by transform() are only edited by moves that mean the same for each. *)
Edit(op, a, i, n) == Becomes(op, a, [el EXCEPT ![i] = n], roots)
Own(i) == el[i].rep /\ ~el[i].wild /\ ChainRep(i)
MoveCp == \E i \in Some({j \in AnyLive : el[j].t = "curve" /\ Own(j)}) : \E j \in Some(1..Len(el[i].g)), k \in Some({1, 3, 5}), x \in Some(Cs), y \in Some(Cs) :
   On("edit") /\ Edit("movecp", <<i, j, k, x, y>>, i, [el[i] EXCEPT !.g[j][k] = x, !.g[j][k + 1] = y])
SetKind == \E i \in Some({j \in AnyLive : el[j].t = "curve" /\ Own(j)}) : \E j \in Some(1..Len(el[i].g)), k \in Some(Kinds) :
   On("edit") /\ Edit("setkind", <<i, j, k>>, i, [el[i] EXCEPT !.k[j] = k])
MoveCorner == \E i \in Some({j \in AnyLive : el[j].t \in {"rect", "ellipse", "rrect"} /\ Own(j)}) : \E c \in Some({1, 3}), x \in Some(Cs), y \in Some(Cs) :
   /\ On("edit") /\ x # el[i].g[4 - c] /\ y # el[i].g[5 - c]
   /\ Edit("corner", <<i, c, x, y>>, i, [el[i] EXCEPT !.g[c] = x, !.g[c + 1] = y])
SetBox == \E i \in Some({j \in AnyLive : el[j].t \in {"rect", "ellipse", "rrect"} /\ Own(j)}) : \E x \in Some(Cs), y \in Some(Cs), w \in Some({1, 4, 9}) :
   On("edit") /\ Edit("setbox", <<i, x, y, x + w, y + w + 1>>, i, [el[i] EXCEPT !.g[1] = x, !.g[2] = y, !.g[3] = x + w, !.g[4] = y + w + 1])
SetRadius == \E i \in Some({j \in AnyLive : el[j].t = "rrect" /\ Own(j)}) : \E r \in Some({1, 2, 5}) :
   On("edit") /\ Edit("radius", <<i, r>>, i, [el[i] EXCEPT !.g[5] = r])
\* moving the element as a whole: its own transform is followed by m
Move == \E i \in Some({j \in AnyLive : ChainRep(j)}), m \in Some(Maps) :
   On("edit") /\ Edit("move", <<i, m>>, i, [el[i] EXCEPT !.x = Mul(m, @)])
SetPen == \E i \in Some({j \in AnyLive : \A k \in LiveParents(j) : el[k].t # "holes"}) : \E pb \in Some({p \in PenIds : el[i].cl \/ ~Filled(p)}) :
   /\ On("edit")
   /\ (el[i].t = "holes" /\ Filled(pb) => \A k \in Range(el[i].kids) : el[k].cl)
   /\ LET h == [j \in Ids |-> IF j = i \/ (el[i].t = "holes" /\ j \in Range(el[i].kids)) THEN [el[j] EXCEPT !.pb = pb] ELSE el[j]]
      IN Becomes("setpen", <<i, pb>>, h, roots)
SetClosed == \E i \in Some({j \in AnyLive : el[j].t = "curve" /\ ~Filled(el[j].pb) /\ \A k \in LiveParents(j) : el[k].t # "holes"}) :
   On("edit") /\ Edit("closed", <<i, ~el[i].cl>>, i, [el[i] EXCEPT !.cl = ~@])
Rename == \E i \in Some(Range(roots)), n \in Some({"x", "y"}) :
   On("edit") /\ Edit("rename", <<i, n>>, i, [el[i] EXCEPT !.n = n])
Hide == \E i \in Some({j \in AnyLive : el[j].t = "group"}) :
   On("edit") /\ Edit("hide", <<i, ~el[i].hid>>, i, [el[i] EXCEPT !.hid = ~@])
\* children
AddKid == \E g \in Some({j \in AnyLive : el[j].t = "group" /\ ChainRep(j) /\ el[j].rep}), r \in Some(Range(roots)) :
   /\ On("edit") /\ Len(el[g].kids) < MaxKids
   /\ g \notin Range(Tree(el, r))
   /\ \A k \in Range(el[g].kids) : el[k].n # el[r].n
   /\ (InHoles(g) => NoHoles(r))
   /\ Becomes("addkid", <<g, r>>, [el EXCEPT ![g].kids = Append(@, r)], SelectSeq(roots, LAMBDA q : q # r))
DelKid == \E g \in Some({j \in AnyLive : el[j].t = "group" /\ el[j].kids # <<>>}) : \E k \in Some(1..Len(el[g].kids)) :
   On("edit") /\ Becomes("delkid", <<g, k>>, [el EXCEPT ![g].kids = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))], roots)
DelHole == \E g \in Some({j \in AnyLive : el[j].t = "holes" /\ Len(el[j].kids) > 1}) : \E k \in Some(2..Len(el[g].kids)) :
   On("edit") /\ Becomes("delhole", <<g, k>>, [el EXCEPT ![g].kids = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))], roots)
\* the points and transform of a shape are overwritten: nobody else may notice
Scribble == \E i \in Some({j \in AnyLive : IsLeaf(el[j])}) :
   On("scribble") /\ Edit("scribble", <<i>>, i, [el[i] EXCEPT !.wild = TRUE])
Drop == \E k \in Some(1..Len(roots)) :
   On("drop") /\ Becomes("drop", <<roots[k]>>, el, SubSeq(roots, 1, k - 1) \o SubSeq(roots, k + 1, Len(roots)))
SetCtx == \E c \in Some(1..Len(Ctxs)) :
   On("ctx") /\ Running /\ roots # <<>> /\ c # ctx /\ ctx' = c /\ UNCHANGED <<el, roots>> /\ Step("ctx", <<c>>)

Next == NewLeaf \/ NewGroup \/ NewHoles \/ NewNest \/ Copy \/ Transform \/ Restore \/ MoveCp \/ SetKind \/ MoveCorner \/ SetBox \/ SetRadius
        \/ Move \/ SetPen \/ SetClosed \/ Rename \/ Hide \/ AddKid \/ DelKid \/ DelHole \/ Scribble \/ Drop \/ SetCtx
\* random walks build and copy more often
WalkNext == Next \/ NewLeaf \/ NewLeaf \/ NewNest \/ NewGroup \/ NewHoles \/ Copy \/ Transform \/ Restore \/ Restore
Walk == Init /\ [][WalkNext]_vars
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Checked on the model *)
\* models never share nodes, and every node has one place
Disjoint == /\ \A i, j \in 1..Len(roots) : i # j => Range(Tree(el, roots[i])) \cap Range(Tree(el, roots[j])) = {}
            /\ \A i \in 1..Len(roots) : LET t == Tree(el, roots[i]) IN Cardinality(Range(t)) = Len(t)
\* names of the children of a group differ, so dotted names identify elements (shapes with holes aside)
NamesDiffer == \A g \in Live(el, roots) : el[g].t = "group" =>
   \A i, j \in 1..Len(el[g].kids) : i # j => el[el[g].kids[i]].n # el[el[g].kids[j]].n
\* a filled element is closed
FilledClosed == \A i \in Live(el, roots) : Filled(el[i].pb) => el[i].cl
\* drawing a visible model strokes every visible leaf exactly once, if it has a pen
RECURSIVE Visible(_)
Visible(i) == IF IsLeaf(el[i]) THEN <<i>> ELSE IF el[i].hid THEN <<>> ELSE Cat([j \in 1..Len(el[i].kids) |-> Visible(el[i].kids[j])])
EdgesOnce == \A r \in Range(roots) :
   LET P == PathsOf(el, r) IN
   \* without holes every path is one leaf; with holes the filled paths come on top
   /\ (NoHoles(r) => [j \in 1..Len(P) |-> P[j].src[1]] = Visible(r))
   /\ LET lines == SelectSeq(P, LAMBDA p : p.pen # "") IN
      \A i, j \in 1..Len(lines) : i # j => lines[i].src[1] # lines[j].src[1]
\* outline of the copy made by transform is the image of the outline of the source
LastTransform == hist # <<>> /\ hist[Len(hist)].op = "transform" =>
   LET a == hist[Len(hist)].a  k == roots[Len(roots)]
       S == Visit(el, a[1], a[2], "", 0)  D == Visit(el, k, Ident, "", 0)
   IN Len(S) = Len(D) /\ \A j \in 1..Len(S) : S[j].w = D[j].w
LastRestore == hist # <<>> /\ hist[Len(hist)].op = "restore" =>
   LET a == hist[Len(hist)].a IN
   LET S == Tree(el, a[2])  D == Tree(el, a[1]) IN
   Len(S) = Len(D) /\ \A j \in 1..Len(S) : [el[S[j]] EXCEPT !.kids = <<>>] = [el[D[j]] EXCEPT !.kids = <<>>]

View == <<el, roots, ctx>>
Emit == CSVWrite("%1$s", <<ToJson(SeenAll(hist))>>, "out.ndjson")
EmitStep == CSVWrite("%1$s", <<ToJson(SeenAll(hist'))>>, "out.ndjson")
EmitFull == (Len(hist) = Depth) => Emit
==========================================================================
