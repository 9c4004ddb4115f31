------------------------------ MODULE MatchSys ------------------------------
(* Comparing recorded geometry with new geometry.  A pair of equal lists of points, vectors and control points is made; then
   the second one is nudged, coordinate by coordinate, or changed in kind, and the two are compared with one tolerance after
   another.  Lengths are in units of 10^-9. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Kinds,          \* of items: "point", "vector", "rel" (a point relative to another), "cp" (a control point)
          Nudges, Deltas, Places, MaxItems, Depth, Sample

VARIABLES it, off, alt, hist
vars == <<it, off, alt, hist>>
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
Running == Len(hist) < Depth
Step(op, a, r) == hist' = Append(hist, [op |-> op, a |-> a, r |-> r])
Size(k) == IF k = "cp" THEN 6 ELSE 2
Init == it = <<>> /\ off = <<>> /\ alt = {} /\ hist = <<>>

Add == /\ Running /\ Len(it) < MaxItems
       /\ \E k \in Some(Kinds) : it' = Append(it, k) /\ off' = Append(off, [i \in 1..Size(k) |-> 0]) /\ Step("add", <<k>>, 0)
       /\ UNCHANGED alt
Is == 1..Len(it)
Abs(x) == IF x < 0 THEN -x ELSE x
Nudge == /\ Running
         /\ \E i \in Some(Is) : \E c \in Some(1..Len(off[i])), d \in Some(Nudges) :
               /\ Abs(off[i][c] + d) < 1000000000
               /\ off' = [off EXCEPT ![i][c] = @ + d] /\ Step("nudge", <<i, c, d>>, 0)
         /\ UNCHANGED <<it, alt>>
\* back to equal
Even == /\ Running
        /\ \E i \in Some(Is) : off' = [off EXCEPT ![i] = [c \in DOMAIN off[i] |-> 0]] /\ Step("even", <<i>>, 0)
        /\ UNCHANGED <<it, alt>>
\* of control points, the kind of corner; of others, the class (point for vector and so on); again: back
Turn == /\ Running
        /\ \E i \in Some(Is) : alt' = (IF i \in alt THEN alt \ {i} ELSE alt \cup {i}) /\ Step("turn", <<i>>, 0)
        /\ UNCHANGED <<it, off>>

\* a tolerance: <<"default">> (seven places), <<"places", p>> or <<"delta", d>>
Within(d, t) == CASE t[1] = "delta" -> Abs(d) <= t[2]
                  [] t[1] = "places" -> 2 * Abs(d) <= 10 ^ (9 - t[2])
                  [] OTHER -> Abs(d) <= 50
\* judged here: nothing stands on the edge
Edge(d, t) == CASE t[1] = "delta" -> Abs(d) = t[2]
                [] t[1] = "places" -> 2 * Abs(d) = 10 ^ (9 - t[2])
                [] OTHER -> Abs(d) = 50
Tols == {<<"default">>} \cup {<<"places", p>> : p \in Places} \cup {<<"delta", d>> : d \in Deltas}
Close(i, t) == i \notin alt /\ \A c \in DOMAIN off[i] : off[i][c] # 0 => Within(off[i][c], t)
Judged(i, t) == \A c \in DOMAIN off[i] : ~Edge(off[i][c], t)
Same(i) == i \notin alt /\ \A c \in DOMAIN off[i] : off[i][c] = 0
Compare == /\ Running /\ it # <<>>
           /\ \E t \in Some({t \in Tols : \A i \in Is : Judged(i, t)}) :
                 Step("compare", t, <<[i \in Is |-> Close(i, t)], [i \in Is |-> Same(i)], [i \in Is |-> [c \in DOMAIN off[i] |-> Within(off[i][c], t)]]>>)
           /\ UNCHANGED <<it, off, alt>>
Next == Add \/ Nudge \/ Even \/ Turn \/ Compare
Spec == Init /\ [][Next]_vars
Walk == Init /\ [][Next \/ Nudge \/ Compare \/ Compare]_vars
------------------------------------------------------------------------
\* what is the same is close by every tolerance; what is close by one is close by every wider one
Wider(t, u) == CASE t[1] = "delta" /\ u[1] = "delta" -> t[2] <= u[2]
                 [] t[1] = "places" /\ u[1] = "places" -> t[2] >= u[2]
                 [] t[1] = "places" /\ u[1] = "delta" -> 10 ^ (9 - t[2]) <= 2 * u[2]
                 [] OTHER -> FALSE
Sound == \A i \in Is : \A t \in Tols : /\ Same(i) => Close(i, t)
                                        /\ \A u \in Tols : Close(i, t) /\ Wider(t, u) => Close(i, u)
View == <<it, off, alt, Len(hist), IF hist = <<>> THEN 0 ELSE hist[Len(hist)].op = "compare">>
Emit(h) == CSVWrite("%1$s", <<ToJson(h)>>, "out.ndjson")
EmitCompare == (hist'[Len(hist')].op = "compare") => Emit(hist')
EmitFull == Len(hist) = Depth => Emit(hist)
==========================================================================
