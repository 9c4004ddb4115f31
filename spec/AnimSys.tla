------------------------------ MODULE AnimSys ------------------------------
(* Points, animations of points towards other points, and a holder that updates its animations in order of addition.
   A point is [b, p]: at p if b = 0, else at p relative to point b. *)
EXTENDS Funcs, TLC, Json, CSV

CONSTANTS FTab, Xys, Times, Tpairs, TrigPars, Radii, Funcsets, MaxPts, MaxAnims, MaxHeld, Depth, Sample, Lim, Ops

VARIABLES ob, an, held, hist
vars == <<ob, an, held, hist>>
\* (mentioning the state keeps TLC from evaluating the random choice once and for all)
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
Pts == 1..Len(ob)
Ans == 1..Len(an)
Running == Len(hist) < Depth
On(op) == op \in Ops
RECURSIVE At(_, _)
At(h, i) == IF h[i].b = 0 THEN h[i].p ELSE PAdd(At(h, h[i].b), h[i].p)
Step(op, a, r) == hist' = Append(hist, [op |-> op, a |-> a, r |-> r, at |-> [i \in 1..Len(ob') |-> At(ob', i)]])
Init == ob = <<>> /\ an = <<>> /\ held = <<>> /\ hist = <<>>

NewPt == \E p \in Some(Xys), b \in Some(0..Len(ob)), u \in Some(BOOLEAN) :
   /\ Running /\ Len(ob) < MaxPts /\ ob' = Append(ob, [b |-> IF u THEN 0 ELSE b, p |-> Pt(p[1], p[2])]) /\ UNCHANGED <<an, held>> /\ Step("pt", <<IF u THEN 0 ELSE b, p>>, 0)
Move == \E i \in Some({i \in Pts : ob[i].b = 0}), p \in Some(Xys) :
   /\ Running /\ On("move") /\ ob' = [ob EXCEPT ![i].p = Pt(p[1], p[2])] /\ UNCHANGED <<an, held>> /\ Step("move", <<i, p>>, 0)

Anim(k, i, j, a) == [k |-> k, i |-> i, j |-> j, a |-> a, o |-> At(ob, i)]
NewAnim == \E k \in Some({"linear", "lfunc", "sinus", "circ", "gen", "drift"} \cap Ops), i \in Some(Pts), j \in Some(Pts), q \in Some(TrigPars), r \in Some(Radii), f \in Some(Funcsets) :
   LET a == CASE k = "lfunc" -> <<f>> [] k = "sinus" -> <<q>> [] k = "circ" -> <<q, r>> [] OTHER -> <<>> IN
   /\ Running /\ Len(an) < MaxAnims /\ i # j
   /\ (~Sample => (k \notin {"sinus", "circ"} => \A z \in TrigPars : z = q) /\ (k # "circ" => \A z \in Radii : z = r))
   /\ UNCHANGED <<ob, held>>
   /\ IF ob[i].b # 0 THEN UNCHANGED an /\ Step("anim", <<k, i, j, a>>, "ValueError")     \* only plain points can be animated
      ELSE an' = Append(an, Anim(k, i, j, a)) /\ Step("anim", <<k, i, j, a>>, "")
Hold == \E x \in Some(Ans) : Running /\ Len(held) < MaxHeld /\ held' = Append(held, x) /\ UNCHANGED <<ob, an>> /\ Step("hold", <<x>>, 0)

\* component-wise product of a point and a vector
CMul(p, v) == PNorm(<<p[1] * v[1], p[2] * v[2], p[3] * v[3]>>)
Vec(x, y) == PNorm(<<x[1] * y[2], y[1] * x[2], x[2] * y[2]>>)
\* (arithmetic stays within TLC's integers: weights are small)
Small(r) == Abs(r[1]) <= 36 /\ r[2] <= 26
Mix(o, g, tx, ty) ==
  IF ~Small(tx) \/ ~Small(ty) THEN <<>>
  ELSE IF tx = ty THEN PAdd(PScale(o, RSub(<<1, 1>>, tx)), PScale(g, tx))
  ELSE IF tx[2] > 4 \/ ty[2] > 4 THEN <<>>
  ELSE PAdd(CMul(o, Vec(RSub(<<1, 1>>, tx), RSub(<<1, 1>>, ty))), CMul(g, Vec(tx, ty)))
\* where animation x puts its point at time t (a sequence of one or two numbers); <<>>: not on the modelled grid
Place(h, x, t) ==
  LET g == At(h, x.j) IN
  CASE x.k = "linear" -> Mix(x.o, g, t[1], t[Len(t)])
    [] x.k = "lfunc" -> LET v == Eval(FTab, x.a[1], t) IN IF ~v.ok \/ v.v = <<>> THEN <<>> ELSE Mix(x.o, g, v.v[1], v.v[Len(v.v)])
    [] x.k = "sinus" -> LET e == TrigAt(x.a[1], t[1]) IN
                        IF Len(t) # 1 \/ Irr(e[1]) THEN <<>> ELSE LET s == RMul(<<1, 2>>, RSub(<<1, 1>>, e[1])) IN Mix(x.o, g, s, s)
    [] x.k = "circ" -> LET e == TrigAt(x.a[1], t[1]) IN
                       IF Len(t) # 1 \/ Irr(e[1]) \/ Irr(e[2]) THEN <<>> ELSE PAdd(x.o, Vec(RMul(<<x.a[2], 1>>, e[2]), RMul(<<x.a[2], 1>>, e[1])))
    [] x.k = "gen" -> IF Len(t) # 1 THEN <<>> ELSE PAdd(x.o, Vec(t[1], RMul(<<-2, 1>>, t[1])))
    [] OTHER -> IF Len(t) # 1 THEN <<>> ELSE PAdd(h[x.i].p, Vec(t[1], t[1]))   \* "drift": a function of the present place
Fits(p) == p # <<>> /\ FitsSeq(p, Lim) /\ p[3] <= 64
RECURSIVE All(_, _, _)
\* updating the animations s in order; <<>> if off the grid
All(h, s, t) == IF s = <<>> THEN h
                ELSE LET p == Place(h, an[Head(s)], t) IN
                     IF ~Fits(p) THEN <<>> ELSE All([h EXCEPT ![an[Head(s)].i].p = p], Tail(s), t)
Update == \E x \in Some(Ans), t \in Some(Times \cup Tpairs) :
   LET h == All(ob, <<x>>, t) IN Running /\ h # <<>> /\ ob' = h /\ UNCHANGED <<an, held>> /\ Step("update", <<x, t>>, 0)
HolderUpdate == \E t \in Some(Times \cup Tpairs) :
   LET h == All(ob, held, t) IN Running /\ On("hold") /\ held # <<>> /\ h # <<>> /\ ob' = h /\ UNCHANGED <<an, held>> /\ Step("all", t, 0)

Next == NewPt \/ Move \/ NewAnim \/ (On("hold") /\ Hold) \/ Update \/ HolderUpdate
WalkNext == Next \/ Update \/ Update \/ HolderUpdate \/ HolderUpdate
Walk == Init /\ [][WalkNext]_vars
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Now == hist[Len(hist)]
\* after an update the place is the one defined by the original place, the present target and the time
Defined == hist = <<>> \/ Now.op # "update" \/ LET x == an[Now.a[1]] IN x.k = "drift" \/ At(ob, x.j) # At(ob, x.j) \/
            (x.k = "linear" /\ Len(Now.a[2]) = 1 =>
               /\ (Now.a[2] = <<<<0, 1>>>> => At(ob, x.i) = x.o)
               /\ (Now.a[2] = <<<<1, 1>>>> /\ ob[x.j].b = 0 => At(ob, x.i) = At(ob, x.j)))
\* no plain point moves that is not animated by what was updated
OnlyTheirs == [][\A i \in Pts : ob'[i] # ob[i] =>
   LET s == hist'[Len(hist')] IN
   \/ s.op = "move" /\ s.a[1] = i
   \/ s.op = "update" /\ an[s.a[1]].i = i
   \/ s.op = "all" /\ \E k \in 1..Len(held) : an[held[k]].i = i]_vars
\* the remembered origin never changes
OriginKept == [][\A x \in Ans : an'[x] = an[x]]_vars

View == <<ob, an, held, Len(hist)>>
Emit(h) == CSVWrite("%1$s", <<ToJson(h)>>, "out.ndjson")
EmitStep == Emit(hist')
EmitFull == Len(hist) = Depth => Emit(hist)
==========================================================================
