--------------------------- MODULE TransformSys ---------------------------
(* Transforms as mutable objects: N transforms, each with its current affine map, a stack of saved maps, and the
   with-blocks that are open in the program (innermost last, over any of the transforms). *)
EXTENDS Aff, TLC, Json, CSV

CONSTANTS N, Trans, Scales, Rots, Centers, BoxPairs, Canvases, Tuples,
          Depth, MaxStack, MaxScopes, Lim, Ghost, EmitAll

VARIABLES T, scopes, hist
vars == <<T, scopes, hist>>

Objs == 1..N
\* ghost: the map as a word of elementary maps, first applied first
E(k, a) == <<[k |-> k, a |-> a]>>
Rec(m, w) == [m |-> m, w |-> IF Ghost THEN w ELSE <<>>]

Init == /\ T = [i \in Objs |-> [cur |-> Rec(Ident, <<>>), stk |-> <<>>]]
        /\ scopes = <<>>
        /\ hist = <<>>

Step(op, i, j, a) ==
  hist' = Append(hist, [op |-> op, i |-> i, j |-> j, a |-> a,
                        m |-> [k \in Objs |-> T'[k].cur.m], d |-> [k \in Objs |-> Len(T'[k].stk)]])

Running == Len(hist) < Depth
Set(i, r) == /\ AFits(r.m, Lim)
             /\ T' = [T EXCEPT ![i].cur = r]

\* apply map M (after the present one)
After(op, i, a, M) ==
  /\ Running
  /\ Set(i, Rec(Mul(M, T[i].cur.m), T[i].cur.w \o E(op, a)))
  /\ UNCHANGED scopes
  /\ Step(op, i, 0, a)

Translate == \E i \in Objs, a \in Trans : After("translate", i, a, MTranslate(a[1], a[2]))
Scale == \E i \in Objs, a \in Scales : After("scale", i, a, MScale(<<a[1], a[2]>>, <<a[3], a[4]>>))
Rotate == \E i \in Objs, a \in Rots : After("rotate", i, a, MRotCW(a))
RotateCCW == \E i \in Objs, a \in Rots : After("rotate_ccw", i, a, MRotCCW(a))
RotateAbout == \E i \in Objs, a \in Rots, c \in Centers :
                  After("rotate_about", i, a \o c, MRotAbout(a, c[1], c[2]))
ScaleBox == \E i \in Objs, a \in BoxPairs : After("scale_bbox", i, a[1] \o a[2], MScaleBox(a[1], a[2]))
FitBox == \E i \in Objs, a \in BoxPairs : After("fit_bbox", i, a[1] \o a[2], MFitBox(a[1], a[2]))

Assign(op, i, j, a, r) ==
  /\ Running
  /\ Set(i, r)
  /\ UNCHANGED scopes
  /\ Step(op, i, j, a)

\* compose: the argument is applied before the present map; compose_outer: after it
Compose == \E i, j \in Objs : Assign("compose", i, j, <<>>,
              Rec(Mul(T[i].cur.m, T[j].cur.m), T[j].cur.w \o T[i].cur.w))
ComposeOuter == \E i, j \in Objs : Assign("compose_outer", i, j, <<>>,
              Rec(Mul(T[j].cur.m, T[i].cur.m), T[i].cur.w \o T[j].cur.w))
SetMatrix == \E i, j \in Objs : i # j /\ Assign("set_matrix", i, j, <<>>, T[j].cur)
Reset == \E i \in Objs : Assign("reset", i, 0, <<>>, Rec(Ident, <<>>))

InScope(i) == \E k \in 1..Len(scopes) : scopes[k].i = i
\* a new object takes the place of object i: nothing saved, and no open block refers to it
Replace(op, i, j, a, r) ==
  /\ Running
  /\ ~InScope(i)
  /\ AFits(r.m, Lim)
  /\ T' = [T EXCEPT ![i] = [cur |-> r, stk |-> <<>>]]
  /\ UNCHANGED scopes
  /\ Step(op, i, j, a)
Copy == \E i, j \in Objs : i # j /\ Replace("copy", i, j, <<>>, T[j].cur)
Canvas == \E i \in Objs, a \in Canvases : Replace("canvas_fit", i, 0, a,
             Rec(MCanvas(a[2], <<a[3], a[4]>>, a[5], a[6]), E("canvas_fit", a)))
Build == \E i \in Objs, a \in Tuples : Replace("build", i, 0, a, Rec(ANorm(a \o <<1>>), E("build", a)))

Push == \E i \in Objs :
   /\ Running /\ Len(T[i].stk) < MaxStack
   /\ T' = [T EXCEPT ![i].stk = Append(@, T[i].cur)]
   /\ UNCHANGED scopes /\ Step("push", i, 0, <<>>)

\* the part of the stack that open blocks own may not be popped by hand
Floor(i) == IF InScope(i) THEN scopes[CHOOSE k \in 1..Len(scopes) : scopes[k].i = i /\ \A k2 \in (k+1)..Len(scopes) : scopes[k2].i # i].depth
            ELSE 0
Pop == \E i \in Objs :
   /\ Running /\ Len(T[i].stk) > Floor(i)
   /\ T' = [T EXCEPT ![i] = [cur |-> @.stk[Len(@.stk)], stk |-> SubSeq(@.stk, 1, Len(@.stk)-1)]]
   /\ UNCHANGED scopes /\ Step("pop", i, 0, <<>>)
PopEmpty == \E i \in Objs :
   /\ Running /\ T[i].stk = <<>>
   /\ UNCHANGED <<T, scopes>> /\ Step("pop_empty", i, 0, <<>>)
WithEmpty == \E i \in Objs :
   /\ Running /\ T[i].stk = <<>>
   /\ UNCHANGED <<T, scopes>> /\ Step("with_empty", i, 0, <<>>)

Enter == \E i \in Objs :
   /\ Running /\ Len(scopes) < MaxScopes /\ Len(T[i].stk) < MaxStack
   /\ T' = [T EXCEPT ![i].stk = Append(@, T[i].cur)]
   /\ scopes' = Append(scopes, [i |-> i, depth |-> Len(T[i].stk) + 1, m |-> T[i].cur.m])
   /\ Step("enter", i, 0, <<>>)
\* the block ends, normally (0) or with an exception (1): one saved map is taken back
Exit == \E x \in {0, 1} :
   /\ Running /\ scopes # <<>>
   /\ LET s == scopes[Len(scopes)] i == s.i IN
        /\ Len(T[i].stk) = s.depth
        /\ T' = [T EXCEPT ![i] = [cur |-> @.stk[Len(@.stk)], stk |-> SubSeq(@.stk, 1, Len(@.stk)-1)]]
        /\ scopes' = SubSeq(scopes, 1, Len(scopes)-1)
        /\ Step("exit", i, 0, <<x>>)
Read == \E i \in Objs : Running /\ UNCHANGED <<T, scopes>> /\ Step("read", i, 0, <<>>)

Next == \/ Translate \/ Scale \/ Rotate \/ RotateCCW \/ RotateAbout \/ ScaleBox \/ FitBox
        \/ Compose \/ ComposeOuter \/ SetMatrix \/ Reset \/ Copy \/ Canvas \/ Build
        \/ Push \/ Pop \/ PopEmpty \/ WithEmpty \/ Enter \/ Exit \/ Read
\* the same behaviours with the save/restore actions drawn more often in random walks
StackMoves == Push \/ Pop \/ Enter \/ Exit \/ Pop \/ Exit
StackyNext == Next \/ StackMoves \/ StackMoves \/ StackMoves \/ StackMoves
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
(* Checked on the model *)
Invertible == \A i \in Objs : Det(T[i].cur.m) # 0
ScopesIntact == \A k \in 1..Len(scopes) :
   LET s == scopes[k] IN Len(T[s.i].stk) >= s.depth /\ T[s.i].stk[s.depth].m = s.m

\* point-wise meaning of each elementary map, written without matrices
AppMap(e, p) ==
  CASE e.k = "translate" -> PAdd(p, Pt(e.a[1], e.a[2]))
    [] e.k = "scale" -> NormSeq(<<p[1]*e.a[1]*e.a[4], p[2]*e.a[3]*e.a[2], p[3]*e.a[2]*e.a[4]>>)
    [] e.k = "rotate_ccw" -> NormSeq(<<e.a[1]*p[1] - e.a[2]*p[2], e.a[2]*p[1] + e.a[1]*p[2], e.a[3]*p[3]>>)
    [] e.k = "rotate" -> NormSeq(<<e.a[1]*p[1] + e.a[2]*p[2], e.a[1]*p[2] - e.a[2]*p[1], e.a[3]*p[3]>>)
    [] e.k = "rotate_about" ->
         LET c == Pt(e.a[4], e.a[5]) v == PSub(p, c) IN
         PAdd(c, NormSeq(<<e.a[1]*v[1] + e.a[2]*v[2], e.a[1]*v[2] - e.a[2]*v[1], e.a[3]*v[3]>>))
    [] e.k = "scale_bbox" ->
         \* proportional position in the box is kept
         LET fx == R(p[1] - e.a[1]*p[3], p[3]*(e.a[3]-e.a[1]))
             fy == R(p[2] - e.a[2]*p[3], p[3]*(e.a[4]-e.a[2]))
             x == RAdd(<<e.a[5], 1>>, RMul(fx, <<e.a[7]-e.a[5], 1>>))
             y == RAdd(<<e.a[6], 1>>, RMul(fy, <<e.a[8]-e.a[6], 1>>))
         IN NormSeq(<<x[1]*y[2], y[1]*x[2], x[2]*y[2]>>)
    [] e.k = "fit_bbox" ->
         \* distance from centre scaled by the smaller ratio, centre onto centre
         LET kx == R(e.a[7]-e.a[5], e.a[3]-e.a[1])  ky == R(e.a[8]-e.a[6], e.a[4]-e.a[2])
             k == RMin(kx, ky)
             v == PSub(p, NormSeq(<<e.a[1]+e.a[3], e.a[2]+e.a[4], 2>>))
         IN PAdd(NormSeq(<<e.a[5]+e.a[7], e.a[6]+e.a[8], 2>>), PScale(v, k))
    [] e.k = "canvas_fit" ->
         LET q == PAdd(PScale(p, <<e.a[3], e.a[4]>>), Pt(e.a[5], e.a[6])) IN
         NormSeq(<<q[1], e.a[2]*q[3] - q[2], q[3]>>)
    [] e.k = "build" -> NormSeq(<<e.a[1]*p[1] + e.a[2]*p[2] + e.a[3]*p[3],
                                  e.a[4]*p[1] + e.a[5]*p[2] + e.a[6]*p[3], p[3]>>)
RECURSIVE AppWord(_, _)
AppWord(w, p) == IF w = <<>> THEN p ELSE AppWord(Tail(w), AppMap(Head(w), p))
MatrixIsWord == Ghost => \A i \in Objs : \A p \in {Pt(0, 0), Pt(1, 0), Pt(0, 1), Pt(2, -3)} :
                   Img(T[i].cur.m, p) = AppWord(T[i].cur.w, p)

--------------------------------------------------------------------------
(* Behaviours for the replay *)
View == <<T, scopes>>
Emit == CSVWrite("%1$s", <<ToJson(hist)>>, "out.ndjson")
EmitStep == CSVWrite("%1$s", <<ToJson(hist')>>, "out.ndjson")
EmitFull == (Len(hist) = Depth) => Emit
==========================================================================
