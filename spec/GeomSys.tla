----------------------------- MODULE GeomSys -----------------------------
(* Points and vectors as objects.  Literal points and vectors own their coordinates; relative points, calculated points
   and relative vectors are defined by other objects and have no coordinates of their own.  Every operation makes a new
   object; only the explicit moves change an existing one. *)
EXTENDS Rat, TLC, Json, CSV, FiniteSets

CONSTANTS Coords,      \* pairs <<x, y>> used for new literals and moves
          Numbers,     \* rationals <<n, d>> used as factors (non-zero)
          Rots,        \* rotation angles <<c, s, q>>
          MaxObjs, Depth, LimN, LimQ,
          Sample       \* random walks: draw the operands at random instead of enumerating them

VARIABLES objs, hist
vars == <<objs, hist>>

\* k: kind, a: own coordinates/offset, b, c: ids of the objects it depends on, s: scale, h: not nameable by the program
Obj(k, a, b, c, s) == [k |-> k, a |-> a, b |-> b, c |-> c, s |-> s, h |-> FALSE]
P(a) == Obj("P", a, 0, 0, <<1, 1>>)
V(a) == Obj("V", a, 0, 0, <<1, 1>>)
Rel(a, b) == Obj("R", a, b, 0, <<1, 1>>)
Calc(b, s) == Obj("C", <<0, 0, 1>>, b, 0, s)
VRel(b, c) == Obj("W", <<0, 0, 1>>, b, c, <<1, 1>>)

RECURSIVE ValIn(_, _)
ValIn(o, i) ==
  CASE o[i].k \in {"P", "V"} -> o[i].a
    [] o[i].k = "R" -> PAdd(ValIn(o, o[i].b), o[i].a)
    [] o[i].k = "C" -> PAdd(ValIn(o, o[o[i].b].b), PScale(o[o[i].b].a, o[i].s))
    [] o[i].k = "W" -> PSub(ValIn(o, o[i].b), ValIn(o, o[i].c))
Val(i) == ValIn(objs, i)

RECURSIVE DependsOn(_, _)
DependsOn(i, j) == \/ i = j
                   \/ objs[i].b # 0 /\ DependsOn(objs[i].b, j)
                   \/ objs[i].c # 0 /\ DependsOn(objs[i].c, j)

Ids == 1..Len(objs)
Named == {i \in Ids : ~objs[i].h}
Points == {i \in Named : objs[i].k \in {"P", "R", "C"}}
Vectors == {i \in Named : objs[i].k \in {"V", "W"}}
LitP == {i \in Named : objs[i].k = "P"}
LitV == {i \in Named : objs[i].k = "V"}
Rels == {i \in Named : objs[i].k = "R"}
Calcs == {i \in Named : objs[i].k = "C"}
VRels == {i \in Named : objs[i].k = "W"}

\* (mentioning the state keeps TLC from evaluating the random choice once and for all)
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
FitsPt(p) == Abs(p[1]) <= LimN /\ Abs(p[2]) <= LimN /\ p[3] <= LimQ
Init == objs = <<>> /\ hist = <<>>
Running == Len(hist) < Depth

Step(op, args, res) ==
  hist' = Append(hist, [op |-> op, a |-> args, r |-> res,
                        o |-> [i \in 1..Len(objs') |-> [k |-> objs'[i].k, h |-> objs'[i].h, v |-> ValIn(objs', i)]]])
\* one more object
New(op, args, ob) ==
  /\ Running
  /\ Len(objs) < MaxObjs
  /\ objs' = Append(objs, ob)
  /\ FitsPt(ob.a)
  /\ FitsPt(ValIn(objs', Len(objs')))
  /\ Step(op, args, <<>>)
\* an answer that is not an object, or a refusal
Ask(op, args, res) == Running /\ UNCHANGED objs /\ Step(op, args, res)
\* a move of an existing object: all dependents must stay in range
Move(op, args, i, ob) ==
  /\ Running
  /\ objs' = [objs EXCEPT ![i] = ob]
  /\ \A j \in Ids : FitsPt(ValIn(objs', j))
  /\ Step(op, args, <<>>)

XY(c) == Pt(c[1], c[2])
NewPoint == \E c \in Coords : New("Point", <<c>>, P(XY(c)))
NewVector == \E c \in Coords : New("Vector", <<c>>, V(XY(c)))
NewRel == \E c \in Coords : \E b \in Some(Points) : New("PointRelative", <<c, b>>, Rel(XY(c), b))
NewRelXY == \E c \in Coords : \E b \in Some(Points) : New("fromxy", <<c, b>>, Rel(PSub(XY(c), Val(b)), b))
NewCalc == \E n \in Numbers : \E b \in Some(Rels) : New("PointCalc", <<b, n>>, Calc(b, n))
NewVRel == \E b \in Some(Points), c \in Some(Points) : New("VectorRelative", <<b, c>>, VRel(b, c))

SubPP == \E i \in Some(Points), j \in Some(Points) : New("p-p", <<i, j>>, V(PSub(Val(i), Val(j))))
AddPV == \E i \in Some(Points), j \in Some(Vectors) : New("p+v", <<i, j>>, P(PAdd(Val(i), Val(j))))
AddVP == \E i \in Some(Points), j \in Some(Vectors) : New("v+p", <<j, i>>, P(PAdd(Val(i), Val(j))))
SubPV == \E i \in Some(Points), j \in Some(Vectors) : New("p-v", <<i, j>>, P(PSub(Val(i), Val(j))))
AddVV == \E i \in Some(Vectors), j \in Some(Vectors) : New("v+v", <<i, j>>, V(PAdd(Val(i), Val(j))))
SubVV == \E i \in Some(Vectors), j \in Some(Vectors) : New("v-v", <<i, j>>, V(PSub(Val(i), Val(j))))
MulVN == \E n \in Numbers : \E i \in Some(Vectors) : New("v*n", <<i, n>>, V(PScale(Val(i), n)))
MulNV == \E n \in Numbers : \E i \in Some(Vectors) : New("n*v", <<n, i>>, V(PScale(Val(i), n)))
DivVN == \E n \in Numbers : \E i \in Some(Vectors) : New("v/n", <<i, n>>, V(PScale(Val(i), <<n[2]*Sgn(n[1]), Abs(n[1])>>)))
NegP == \E i \in Some(Points) : New("-p", <<i>>, P(PNeg(Val(i))))
NegV == \E i \in Some(Vectors) : New("-v", <<i>>, V(PNeg(Val(i))))
Mid == \E i \in Some(Points), j \in Some(Points) : New("mid", <<i, j>>, P(PScale(PAdd(Val(i), Val(j)), <<1, 2>>)))
FixedP == \E i \in Some(Points) : New("fixed", <<i>>, P(Val(i)))
FixedV == \E i \in Some(Vectors) : New("fixed", <<i>>, V(Val(i)))
ToV == \E i \in Some(Points) : New("p.v", <<i>>, V(Val(i)))
ToP == \E i \in Some(Vectors) : New("v.p", <<i>>, P(Val(i)))
Normal == \E i \in Some(Vectors) : New("normal", <<i>>, V(<<Val(i)[2], -Val(i)[1], Val(i)[3]>>))
RotV == \E t \in Rots : \E i \in Some(Vectors) :
   New("rotate", <<i, t>>, V(NormSeq(<<t[1]*Val(i)[1] - t[2]*Val(i)[2], t[2]*Val(i)[1] + t[1]*Val(i)[2], t[3]*Val(i)[3]>>)))
\* vectors of rational length
RootOf(n) == IF \E r \in 0..150 : r*r = n THEN CHOOSE r \in 0..150 : r*r = n ELSE -1
LenOf(v) == IF Abs(v[1]) > 100 \/ Abs(v[2]) > 100 THEN -1 ELSE RootOf(v[1]*v[1] + v[2]*v[2])
Unit == \E i \in Some(Vectors) : LET v == Val(i) l == LenOf(v) IN l > 0 /\ New("unit", <<i>>, V(NormSeq(<<v[1], v[2], l>>)))
UnitZero == \E i \in Some(Vectors) : Val(i)[1] = 0 /\ Val(i)[2] = 0 /\ Ask("unit of zero", <<i>>, <<"ZeroDivisionError">>)
\* rounding to whole numbers, where no tie is involved
RoundN(n, q) == IF n >= 0 THEN (2*n + q) \div (2*q) ELSE -((2*(-n) + q) \div (2*q))
RoundP(v) == <<RoundN(v[1], v[3]), RoundN(v[2], v[3]), 1>>
NoTie(v) == v[3] % 2 = 1
Round == \E i \in Some(Points \cup LitV) :
   /\ NoTie(Val(i))
   /\ New("round", <<i>>, IF objs[i].k = "V" THEN V(RoundP(Val(i))) ELSE P(RoundP(Val(i))))
\* a relative vector is rounded to one between new points, at the rounded places of its two points
RoundRel == \E i \in Some(VRels) :
   LET o == objs[i]
       n == Len(objs)
       at(j) == [P(RoundP(Val(j))) EXCEPT !.h = TRUE]
   IN /\ Running /\ n + 3 <= MaxObjs
      /\ NoTie(Val(o.b)) /\ NoTie(Val(o.c))
      /\ objs' = objs \o <<at(o.b), at(o.c), VRel(n+1, n+2)>>
      /\ Step("round", <<i>>, <<>>)

CopyO == \E i \in Some(Named) :
   LET o == objs[i] IN
   CASE o.k \in {"P", "V", "R", "C"} -> New("copy", <<i>>, o)
     [] o.k = "W" ->
          \* a relative vector between copies of its two points
          LET n == Len(objs)
              hid(ob) == [ob EXCEPT !.h = TRUE]
          IN /\ Running /\ n + 3 <= MaxObjs
             /\ objs' = objs \o <<hid(objs[o.b]), hid(objs[o.c]), VRel(n+1, n+2)>>
             /\ Step("copy", <<i>>, <<>>)

SetXY == \E c \in Coords : \E i \in Some(LitP \cup LitV) : Move("setxy", <<i, c>>, i, [objs[i] EXCEPT !.a = XY(c)])
SetP == \E i \in Some(LitP), j \in Some(Points) : Move("set", <<i, j>>, i, [objs[i] EXCEPT !.a = Val(j)])
SetV == \E i \in Some(LitV), j \in Some(Vectors) : Move("set", <<i, j>>, i, [objs[i] EXCEPT !.a = Val(j)])
Restore == \E i \in Some(LitP), j \in Some(Points) : Move("restore", <<i, j>>, i, [objs[i] EXCEPT !.a = Val(j)])
SetRel == \E c \in Coords : \E i \in Some(Rels) : Move("dxdy", <<i, c>>, i, [objs[i] EXCEPT !.a = XY(c)])
Rebase == \E i \in Some(Rels), j \in Some(Points) : ~DependsOn(j, i) /\ Move("rebase", <<i, j>>, i, [objs[i] EXCEPT !.b = j])
SetScale == \E n \in Numbers : \E i \in Some(Calcs) : Move("scale", <<i, n>>, i, [objs[i] EXCEPT !.s = n])

Dot == \E i \in Some(Vectors), j \in Some(Vectors) : LET v == Val(i) w == Val(j) IN
   Abs(v[1]) + Abs(v[2]) + Abs(w[1]) + Abs(w[2]) < 20000 /\ Ask("dot", <<i, j>>, PDot(v, w))
Cross == \E i \in Some(Vectors), j \in Some(Vectors) : LET v == Val(i) w == Val(j) IN
   Abs(v[1]) + Abs(v[2]) + Abs(w[1]) + Abs(w[2]) < 20000 /\ Ask("cross", <<i, j>>, PCross(v, w))
Len2 == \E i \in Some(Vectors) : LET v == Val(i) IN
   Abs(v[1]) + Abs(v[2]) < 20000 /\ Ask("length", <<i>>, <<v[1]*v[1] + v[2]*v[2], v[3]*v[3]>>)

\* equality: same kind and same defining data
RECURSIVE Same(_, _)
Same(i, j) == /\ objs[i].k = objs[j].k
              /\ CASE objs[i].k \in {"P", "V"} -> objs[i].a = objs[j].a
                   [] objs[i].k = "R" -> objs[i].a = objs[j].a /\ Same(objs[i].b, objs[j].b)
                   [] objs[i].k = "C" -> objs[i].s = objs[j].s /\ Same(objs[i].b, objs[j].b)
                   [] objs[i].k = "W" -> Same(objs[i].b, objs[j].b) /\ Same(objs[i].c, objs[j].c)
Equal == \E i \in Some(Named), j \in Some(Named) : Ask("==", <<i, j>>, <<IF Same(i, j) THEN 1 ELSE 0>>)
Close == \E i \in Some(Named), j \in Some(Named) : (i \in Points) = (j \in Points) /\ Ask("close", <<i, j>>, <<IF Val(i) = Val(j) THEN 1 ELSE 0>>)

AddPP == \E i \in Some(Points), j \in Some(Points) : Ask("p+p", <<i, j>>, <<"TypeError">>)
MulPN == \E n \in Numbers : \E i \in Some(Points) : Ask("p*n", <<i, n>>, <<"TypeError">>)
SubVP == \E i \in Some(Vectors), j \in Some(Points) : Ask("v-p", <<i, j>>, <<"TypeError">>)
AddN == \E n \in Numbers : \E i \in Some(Named) : Ask("o+n", <<i, n>>, <<"TypeError">>)
SetW == \E c \in Coords : \E i \in Some(VRels) : Ask("setxy of relative", <<i, c>>, <<"NotImplementedError">>)

Make == NewPoint \/ NewVector \/ NewRel \/ NewRelXY \/ NewCalc \/ NewVRel
Algebra == \/ SubPP \/ AddPV \/ AddVP \/ SubPV \/ AddVV \/ SubVV \/ MulVN \/ MulNV \/ DivVN \/ NegP \/ NegV \/ Mid
           \/ FixedP \/ FixedV \/ ToV \/ ToP \/ Normal \/ RotV \/ Unit \/ UnitZero \/ Round \/ RoundRel
Moves == SetXY \/ SetP \/ SetV \/ Restore \/ SetRel \/ Rebase \/ SetScale
Asks == Dot \/ Cross \/ Len2 \/ Equal \/ Close \/ AddPP \/ MulPN \/ SubVP \/ AddN \/ SetW
Next == Make \/ Algebra \/ CopyO \/ Moves \/ Asks
\* random walks for dependence: few operations, many moves
DepNext == Make \/ FixedP \/ FixedV \/ Mid \/ CopyO \/ Moves \/ Moves \/ SubPP \/ AddPV \/ Round \/ RoundRel \/ Equal
\* walks for copies of things that depend on other things
CopyNext == NewPoint \/ NewRel \/ NewCalc \/ NewVRel \/ CopyO \/ CopyO \/ SetXY \/ SetRel \/ Rebase \/ SetScale
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
\* dependencies never form a cycle, so every object has a value
Acyclic == \A i \in Ids : /\ objs[i].b # 0 => ~DependsOn(objs[i].b, i)
                          /\ objs[i].c # 0 => ~DependsOn(objs[i].c, i)
\* a relative vector between two points really is their difference; calculated points are on their base's line
Coherent == \A i \in Ids :
   /\ objs[i].k = "W" => PAdd(Val(objs[i].c), Val(i)) = Val(objs[i].b)
   /\ objs[i].k = "C" => PCross(PSub(Val(i), Val(objs[objs[i].b].b)), objs[objs[i].b].a)[1] = 0
\* only moves change existing objects
OnlyMovesMove == [][\A i \in Ids : objs'[i] # objs[i] =>
   Len(objs') = Len(objs) /\ hist'[Len(hist')].op \in {"setxy", "set", "restore", "dxdy", "rebase", "scale"}]_vars

View == objs
EmitStep == CSVWrite("%1$s", <<ToJson(hist')>>, "out.ndjson")
EmitFull == (Len(hist) = Depth) => CSVWrite("%1$s", <<ToJson(hist)>>, "out.ndjson")
==========================================================================
