------------------------------ MODULE FuncSys ------------------------------
(* A table of time-shaping functions that grows, and calls at any times in any order. *)
EXTENDS Funcs, TLC, Json, CSV

CONSTANTS Basic, Thresholds, Times, MaxFs, Depth, Sample, Lim

VARIABLES fs, hist
vars == <<fs, hist>>
\* (mentioning the state keeps TLC from evaluating the random choice once and for all)
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
Ids == 1..Len(fs)
Init == fs = <<>> /\ hist = <<>>
Step(op, a, v) == hist' = Append(hist, [op |-> op, a |-> a, v |-> v])
Running == Len(hist) < Depth
Zero == <<<<0, 1>>>>

New(f) == Running /\ Len(fs) < MaxFs /\ fs' = Append(fs, f) /\ Step("new", f, <<>>)
Make == \E f \in Some(Basic) : New(f)
\* functions of numbers with number values can be combined
Scalar(i) == LET x == Eval(fs, i, Zero) IN x.ok /\ Len(x.v) = 1 /\ ~Tie(fs, i, Zero)
Xy == \E i \in Some(Ids), j \in Some(Ids) : Scalar(i) /\ Scalar(j) /\ New([k |-> "xy", a |-> <<>>, s |-> <<i, j>>])
Hide == \E i \in Some(Ids), h \in Some(Thresholds) : Scalar(i) /\ New([k |-> "hide", a |-> h, s |-> <<i>>])
Comp == \E i \in Some(Ids), j \in Some(Ids) : Level(fs, i) + Level(fs, j) <= 3 /\ New([k |-> "comp", a |-> <<>>, s |-> <<i, j>>])
Call == \E i \in Some(Ids), t \in Some(Times) :
   LET x == Eval(fs, i, t) IN
   /\ Running /\ x.ok /\ ~Tie(fs, i, t) /\ ValFits(x.v, Lim)
   /\ UNCHANGED fs /\ Step("call", <<i, t>>, x.v)
Next == Make \/ Xy \/ Hide \/ Comp \/ Call
WalkNext == Next \/ Call \/ Call \/ Call
Walk == Init /\ [][WalkNext]_vars
Spec == Init /\ [][Next]_vars

\* what a ramp is: 0 before, 1 after, in between never outside, and never falling
Laws == \A i \in Ids : fs[i].k \in {"up", "down"} =>
   \A t \in {t \in Times : Len(t) = 1} :
      LET v == Eval(fs, i, t).v[1]
          w == IF fs[i].k = "up" THEN v ELSE RSub(<<1, 1>>, v)
      IN /\ (RLe(t[1], fs[i].a[1]) => w = <<0, 1>>) /\ (RLe(fs[i].a[2], t[1]) => w = <<1, 1>>)
         /\ RLe(<<0, 1>>, w) /\ RLe(w, <<1, 1>>)
\* interpolation meets its points
Meets == \A i \in Ids : fs[i].k = "interp" => \A j \in 1..Len(fs[i].a) : Eval(fs, i, <<fs[i].a[j][1]>>).v = <<fs[i].a[j][2]>>

View == <<fs, Len(hist)>>
Emit(h) == CSVWrite("%1$s", <<ToJson(h)>>, "out.ndjson")
EmitStep == Emit(hist')
EmitFull == Len(hist) = Depth => Emit(hist)
==========================================================================
