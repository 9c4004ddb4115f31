------------------------------ MODULE BBoxSys ------------------------------
(* Bounding boxes as objects.  A box is <<xl, yl, xh, yh>> with xl <= xh and yl <= yh, or None.  Coordinates are whole
   numbers (the replay scales them).  Only grow, item assignment and sort change a box; everything else makes a new one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Corners,   \* 4-tuples of coordinates in any order
          Points,    \* <<x, y>>
          Amounts,   \* <<ex, ey>> for expand; <<e>> for both
          Maps,      \* <<a, b, tx, c, d, ty>>
          MaxObjs, Depth, Lim, Sample

VARIABLES bs, hist
vars == <<bs, hist>>

Nope == <<>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Box(c) == <<Min(c[1], c[3]), Min(c[2], c[4]), Max(c[1], c[3]), Max(c[2], c[4])>>

Sum(p, q) == IF q = Nope THEN p ELSE IF p = Nope THEN q
             ELSE <<Min(p[1], q[1]), Min(p[2], q[2]), Max(p[3], q[3]), Max(p[4], q[4])>>
Grown(p, pt) == Sum(p, <<pt[1], pt[2], pt[1], pt[2]>>)
Inter(p, q) == IF p = Nope \/ q = Nope THEN Nope
               ELSE LET r == <<Max(p[1], q[1]), Max(p[2], q[2]), Min(p[3], q[3]), Min(p[4], q[4])>>
                    IN IF r[1] > r[3] \/ r[2] > r[4] THEN Nope ELSE r
\* shrinking stops at the centre
Expand(p, ex, ey) ==
  LET mx == Max(2*ex, -(p[3]-p[1]))  my == Max(2*ey, -(p[4]-p[2]))      \* doubled
  IN <<2*p[1] - mx, 2*p[2] - my, 2*p[3] + mx, 2*p[4] + my>>              \* doubled
Im(m, x, y) == <<m[1]*x + m[2]*y + m[3], m[4]*x + m[5]*y + m[6]>>
Mapped(p, m) == LET a == Im(m, p[1], p[2])  b == Im(m, p[1], p[4])  c == Im(m, p[3], p[2])  d == Im(m, p[3], p[4])
                    lo(k) == Min(Min(a[k], b[k]), Min(c[k], d[k]))
                    hi(k) == Max(Max(a[k], b[k]), Max(c[k], d[k]))
                IN <<lo(1), lo(2), hi(1), hi(2)>>

\* predicates on two real boxes
Contains(p, q) == p[1] <= q[1] /\ q[3] <= p[3] /\ p[2] <= q[2] /\ q[4] <= p[4]
\* neither lies wholly on one side of the other
Overlaps(p, q) == ~(p[1] >= q[3] \/ p[3] <= q[1] \/ p[2] >= q[4] \/ p[4] <= q[2])
TouchesSide(p, q) == \/ (q[3] = p[1] \/ q[1] = p[3]) /\ p[2] < q[4] /\ q[2] < p[4]
                     \/ (q[4] = p[2] \/ q[2] = p[4]) /\ p[1] < q[3] /\ q[1] < p[3]
Touches(p, q) == \/ (q[3] = p[1] \/ q[1] = p[3]) /\ p[2] <= q[4] /\ q[2] <= p[4]
                 \/ (q[4] = p[2] \/ q[2] = p[4]) /\ p[1] <= q[3] /\ q[1] <= p[3]
ContainsPt(p, t) == p # Nope /\ p[1] < t[1] /\ t[1] < p[3] /\ p[2] < t[2] /\ t[2] < p[4]
TouchesPt(p, t) == p # Nope /\ (\/ t[1] \in {p[1], p[3]} /\ p[2] < t[2] /\ t[2] < p[4]
                                \/ t[2] \in {p[2], p[4]} /\ p[1] < t[1] /\ t[1] < p[3])

Init == bs = <<>> /\ hist = <<>>
Running == Len(hist) < Depth
Ids == 1..Len(bs)
Real == {i \in Ids : bs[i] # Nope}
\* (mentioning the state keeps TLC from evaluating the random choice once and for all)
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
Fits(b) == \A k \in 1..Len(b) : b[k] <= Lim /\ b[k] >= -Lim
Step(op, a, r) == hist' = Append(hist, [op |-> op, a |-> a, r |-> r, o |-> bs'])
New(op, a, b) == Running /\ Len(bs) < MaxObjs /\ Fits(b) /\ bs' = Append(bs, b) /\ Step(op, a, <<>>)
Change(op, a, i, b) == Running /\ Fits(b) /\ bs' = [bs EXCEPT ![i] = b] /\ Step(op, a, <<>>)
Ask(op, a, r) == Running /\ UNCHANGED bs /\ Step(op, a, r)
B(x) == IF x THEN 1 ELSE 0

NewNone == New("none", <<>>, Nope)
NewTuple == \E c \in Corners : New("tuple", c, Box(c))
NewFour == \E c \in Corners : New("four", c, Box(c))
NewPts == \E c \in Corners : New("points", c, Box(c))
CopyB == \E i \in Some(Ids) : New("copy", <<i>>, bs[i])
AddB == \E i \in Some(Ids), j \in Some(Ids) : New("+", <<i, j>>, Sum(bs[i], bs[j]))
InterB == \E i \in Some(Ids), j \in Some(Ids) : New("intersection", <<i, j>>, Inter(bs[i], bs[j]))
Halvable(b) == \A k \in 1..4 : b[k] % 2 = 0
ExpandB == \E e \in Amounts : \E i \in Some(Real) :
   LET d == Expand(bs[i], e[1], e[Len(e)]) IN
   /\ Halvable(d)
   /\ New("expand", <<i>> \o e, <<d[1] \div 2, d[2] \div 2, d[3] \div 2, d[4] \div 2>>)
MapB == \E m \in Maps : \E i \in Some(Real) : New("transformed", <<i>> \o m, Mapped(bs[i], m))
RoundTen(v) == IF v >= 0 THEN 10*((v + 5) \div 10) ELSE -10*((-v + 5) \div 10)
RoundB == \E i \in Some(Real) : (\A k \in 1..4 : bs[i][k] % 10 # 5) /\
             New("round", <<i>>, [k \in 1..4 |-> RoundTen(bs[i][k])])
Grow == \E p \in Points : \E i \in Some(Ids) : Change("grow", <<i>> \o p, i, Grown(bs[i], p))
SetSort == \E p \in Points, k \in 1..4 : \E i \in Some(Real) :
              Change("set+sort", <<i, k, p[1]>>, i, Box([bs[i] EXCEPT ![k] = p[1]]))
AskPair == \E i \in Some(Ids), j \in Some(Ids) : LET p == bs[i] q == bs[j] IN
   Ask("pair", <<i, j>>,
     IF p = Nope \/ q = Nope THEN <<B(p = q), -1, -1, 0, 0>>
     ELSE <<B(p = q), B(Contains(p, q)), B(Overlaps(p, q)), B(TouchesSide(p, q)), B(Touches(p, q))>>)
AskPt == \E t \in Points : \E i \in Some(Ids) : Ask("point", <<i>> \o t, <<B(ContainsPt(bs[i], t)), B(TouchesPt(bs[i], t))>>)

Next == NewNone \/ NewTuple \/ NewFour \/ NewPts \/ CopyB \/ AddB \/ InterB \/ ExpandB \/ MapB \/ RoundB
        \/ Grow \/ SetSort \/ AskPair \/ AskPt
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
\* every pair of boxes on a small grid, with all that can be asked of it
PairInit == bs \in {<<p, q>> : p, q \in {Nope} \cup {Box(c) : c \in Corners}} /\ hist = <<[op |-> "init", a |-> <<>>, r |-> <<>>, o |-> bs]>>
PairNext == \/ (Running /\ New("+", <<1, 2>>, Sum(bs[1], bs[2])))
            \/ (Running /\ New("intersection", <<1, 2>>, Inter(bs[1], bs[2])))
            \/ LET p == bs[1] q == bs[2] IN
               Ask("pair", <<1, 2>>, IF p = Nope \/ q = Nope THEN <<B(p = q), -1, -1, 0, 0>>
                  ELSE <<B(p = q), B(Contains(p, q)), B(Overlaps(p, q)), B(TouchesSide(p, q)), B(Touches(p, q))>>)
\* what the words mean: a box as the set of points of a half-unit grid it covers
Cells == {<<x, y>> : x, y \in (-2)..10}
In(p, t) == p # Nope /\ 2*p[1] <= t[1] /\ t[1] <= 2*p[3] /\ 2*p[2] <= t[2] /\ t[2] <= 2*p[4]
Inside(p, t) == p # Nope /\ 2*p[1] < t[1] /\ t[1] < 2*p[3] /\ 2*p[2] < t[2] /\ t[2] < 2*p[4]
Corner(p, t) == p # Nope /\ t[1] \in {2*p[1], 2*p[3]} /\ t[2] \in {2*p[2], 2*p[4]}
Solid(p) == p # Nope /\ p[1] < p[3] /\ p[2] < p[4]
Meaning ==
  LET p == bs[1] q == bs[2] IN
  /\ \A t \in Cells : In(Inter(p, q), t) <=> In(p, t) /\ In(q, t)
  /\ \A t \in Cells : In(p, t) \/ In(q, t) => In(Sum(p, q), t)
  \* smallest: each side of the sum carries a point of one of them
  /\ Sum(p, q) # Nope => LET s == Sum(p, q) IN
        \A k \in 1..4 : \E r \in {p, q} \ {Nope} : r[k] = s[k]
  /\ Sum(p, q) = Sum(q, p) /\ Inter(p, q) = Inter(q, p) /\ Sum(p, p) = p /\ Inter(p, p) = p
  /\ p # Nope /\ q # Nope => /\ Contains(p, q) <=> (\A t \in Cells : In(q, t) => In(p, t))
                             /\ Contains(p, q) <=> Inter(p, q) = q
                             /\ Contains(p, q) <=> Sum(p, q) = p
                             /\ ~(Overlaps(p, q) /\ Touches(p, q))
                             /\ TouchesSide(p, q) => Touches(p, q)
                             /\ Overlaps(p, q) = Overlaps(q, p) /\ Touches(p, q) = Touches(q, p)
                             /\ TouchesSide(p, q) = TouchesSide(q, p)
  /\ Solid(p) /\ Solid(q) =>
        /\ Overlaps(p, q) <=> \E t \in Cells : Inside(p, t) /\ Inside(q, t)
        /\ Touches(p, q) <=> (\E t \in Cells : In(p, t) /\ In(q, t)) /\ ~\E t \in Cells : Inside(p, t) /\ Inside(q, t)
        /\ TouchesSide(p, q) <=> Touches(p, q) /\ \E t \in Cells : In(p, t) /\ In(q, t) /\ ~Corner(Inter(p, q), t)
\* a box is always sorted, and only the three changing operations change one
Sorted == \A i \in Ids : bs[i] # Nope => bs[i][1] <= bs[i][3] /\ bs[i][2] <= bs[i][4]
OnlyChanges == [][\A i \in Ids : bs'[i] # bs[i] => hist'[Len(hist')].op \in {"grow", "set+sort"}]_vars

View == bs
EmitStep == CSVWrite("%1$s", <<ToJson(hist')>>, "out.ndjson")
EmitFull == (Len(hist) = Depth) => CSVWrite("%1$s", <<ToJson(hist)>>, "out.ndjson")
==========================================================================
