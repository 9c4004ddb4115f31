------------------------------- MODULE SelfxSys -------------------------------
(* Taking a closed curve apart at its crossings.  The curve is a polygon (the checks draw its edges straight or slightly
   bent) that grows by a vertex at a time; an edge that meets no other may have a kink: it then crosses itself.  Each
   crossing is passed twice; a loop leaves every crossing by the other strand than the one it came on. *)
EXTENDS Rat, FiniteSets, Randomization, TLC, Json, CSV

CONSTANTS Coords,      \* coordinates of vertices
          MaxN, MaxKinks, Depth, Sample,
          Margin       \* crossings are further than 1/Margin of the edge from its ends and from each other

VARIABLES po, hist
vars == <<po, hist>>
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
Running == Len(hist) < Depth
Step(op, a, r) == hist' = Append(hist, [op |-> op, a |-> a, r |-> r])
Init == po = <<>> /\ hist = <<>>

Det(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
Sq(p, q) == (q[1] - p[1]) * (q[1] - p[1]) + (q[2] - p[2]) * (q[2] - p[2])
At(p, i) == p[((i - 1) % Len(p)) + 1]
Seg(p, i) == <<At(p, i), At(p, i + 1)>>
Meet(s, t) == /\ Sgn(Det(s[1], s[2], t[1])) * Sgn(Det(s[1], s[2], t[2])) < 0
              /\ Sgn(Det(t[1], t[2], s[1])) * Sgn(Det(t[1], t[2], s[2])) < 0
\* where along s it meets t
Along(s, t) == LET a == Det(t[1], t[2], s[1]) b == Det(t[1], t[2], s[2]) IN R(a, a - b)
\* segments of some length, not level nor upright (there the intersections found by the bezier package are not complete)
Plain(s) == s[1][1] # s[2][1] /\ s[1][2] # s[2][2] /\ Sq(s[1], s[2]) >= 16
\* a point is half a unit away from the line of s
Off(s, v) == 4 * Det(s[1], s[2], v) * Det(s[1], s[2], v) >= Sq(s[1], s[2])
\* the directions of s and t differ by some ten degrees
Slant(s, t) == LET d == (s[2][1] - s[1][1]) * (t[2][2] - t[1][2]) - (s[2][2] - s[1][2]) * (t[2][1] - t[1][1])
               IN 30 * d * d >= Sq(s[1], s[2]) * Sq(t[1], t[2])
Far(a, b) == RLe(<<1, Margin>>, RSub(a, b)) \/ RLe(<<1, Margin>>, RSub(b, a))
\* edges of p that meet edge i
Others(p, i, E) == {j \in E \ {i} : Meet(Seg(p, i), Seg(p, j))}
\* E: the edges looked at (all of them, or all but the one that closes the polygon)
GoodEdge(p, i, E) ==
  LET s == Seg(p, i) O == Others(p, i, E) IN
  /\ Plain(s)
  /\ \A k \in 1..Len(p) : At(p, k) \notin {s[1], s[2]} => Off(s, At(p, k))
  /\ \A j \in O : Slant(s, Seg(p, j)) /\ LET t == Along(s, Seg(p, j)) IN
       Far(t, <<0, 1>>) /\ Far(t, <<1, 1>>) /\ \A k \in O \ {j} : Far(t, Along(s, Seg(p, k)))
Distinct(p) == Cardinality({p[i] : i \in 1..Len(p)}) = Len(p)
Good(p, E) == Distinct(p) /\ \A i \in E : GoodEdge(p, i, E)
Chain(p) == Good(p, 1..Len(p) - 1)
Closed(p) == Len(p) >= 3 /\ Good(p, 1..Len(p))

\* the edges that meet edge i, in the order it meets them
RECURSIVE Sorted(_, _, _)
Sorted(p, i, O) == IF O = {} THEN <<>> ELSE
  LET f == CHOOSE j \in O : \A k \in O : RLe(Along(Seg(p, i), Seg(p, j)), Along(Seg(p, i), Seg(p, k))) IN <<f>> \o Sorted(p, i, O \ {f})
\* the places passed on the way round: vertices <<"v", i, 0>>, crossings <<"x", i, j>> with i < j, and on kinked edges
\* the kink, its middle and the kink again
Pass(p, K, i) == IF i \in K THEN <<<<"v", i, 0>>, <<"k", i, 0>>, <<"m", i, 0>>, <<"k", i, 0>>>> ELSE
  LET o == Sorted(p, i, Others(p, i, 1..Len(p))) IN <<<<"v", i, 0>>>> \o [k \in 1..Len(o) |-> <<"x", Min2(i, o[k]), Max2(i, o[k])>>]
RECURSIVE Way(_, _, _)
Way(p, K, i) == IF i > Len(p) THEN <<>> ELSE Pass(p, K, i) \o Way(p, K, i + 1)
\* what comes after position i of way w
Twin(w, i) == IF w[i][1] \in {"x", "k"} THEN CHOOSE j \in 1..Len(w) : j # i /\ w[j] = w[i] ELSE i
After(w, i) == (Twin(w, i) % Len(w)) + 1
RECURSIVE Cycle(_, _, _)
Cycle(w, i, seen) == IF seen # <<>> /\ i = seen[1] THEN seen ELSE Cycle(w, After(w, i), Append(seen, i))
RECURSIVE Cycles(_, _)
Cycles(w, left) == IF left = {} THEN <<>> ELSE
  LET c == Cycle(w, CHOOSE i \in left : TRUE, <<>>) IN <<c>> \o Cycles(w, left \ {c[i] : i \in 1..Len(c)})
Loops(w) == IF \A i \in 1..Len(w) : w[i][1] = "v" THEN <<>> ELSE Cycles(w, 1..Len(w))
Where(p, x) == IF x[1] = "x" THEN LET t == Along(Seg(p, x[2]), Seg(p, x[3])) IN <<x[1], x[2], x[3], t[1], t[2]>> ELSE <<x[1], x[2], x[3], 0, 1>>
Result(p, K) == LET w == Way(p, K, 1) l == Loops(w) IN [k \in 1..Len(l) |-> [i \in 1..Len(l[k]) |-> Where(p, w[l[k][i]])]]

\* edges with room for a kink
Free(p) == {i \in 1..Len(p) : /\ Others(p, i, 1..Len(p)) = {}
                              /\ Slant(Seg(p, i), Seg(p, i + 1)) /\ Slant(Seg(p, i), Seg(p, i + Len(p) - 1))
                              /\ \A k \in 1..Len(p) : At(p, k) \notin {Seg(p, i)[1], Seg(p, i)[2]} =>
                                   Det(Seg(p, i)[1], Seg(p, i)[2], At(p, k)) * Det(Seg(p, i)[1], Seg(p, i)[2], At(p, k)) >= Sq(Seg(p, i)[1], Seg(p, i)[2])}
\* (a few places in sampling: looking at all takes long)
Spots == IF Sample THEN RandomSubset(IF Len(hist) < 0 THEN 1 ELSE 60, Coords \X Coords) ELSE Coords \X Coords
Add == \E v \in Some({v \in Spots : Chain(Append(po, v))}) :
  /\ Running /\ Len(po) < MaxN
  /\ po' = Append(po, v)
  /\ IF Closed(po') THEN \E K \in Some({K \in SUBSET Free(po') : Cardinality(K) <= MaxKinks}) : Step("curve", <<po', K>>, Result(po', K))
     ELSE Step("add", <<v>>, <<>>)
Next == Add
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------
Last == hist[Len(hist)]
W == Way(Last.a[1], Last.a[2], 1)
Curve == hist # <<>> /\ Last.op = "curve"
\* every piece of the way is on exactly one loop, and goes forward there
Count(x) == Cardinality({<<k, i>> \in UNION {{k} \X (1..Len(Last.r[k])) : k \in 1..Len(Last.r)} : <<Last.r[k][i][1], Last.r[k][i][2], Last.r[k][i][3]>> = x})
Partition == Curve /\ Last.r # <<>> => \A i \in 1..Len(W) : Count(W[i]) = IF W[i][1] \in {"x", "k"} THEN 2 ELSE 1
\* no loop comes to a crossing twice
Simple == Curve => \A k \in 1..Len(Last.r) : Cardinality({Last.r[k][i] : i \in 1..Len(Last.r[k])}) = Len(Last.r[k])
\* loops and crossings: their numbers add up to an odd one
Parity == Curve /\ Last.r # <<>> => (Len(Last.r) + Cardinality({W[i] : i \in {i \in 1..Len(W) : W[i][1] \in {"x", "k"}}})) % 2 = 1
View == <<po, Len(hist), hist>>
Emit(h) == CSVWrite("%1$s", <<ToJson(h)>>, "out.ndjson")
EmitStep == Emit(hist')
EmitFull == Len(hist) = Depth => Emit(hist)
==========================================================================
