------------------------------ MODULE FramesSys ------------------------------
(* Producing frames.  Simple animations record a frame for every step, be it one of animate() or one driven by hand; a
   builder updates all of its animations to the time of a frame and then draws its model once.  c: the calls of one
   operation, in order: <<"draw", i, t>> (drawing of animation i at t), <<"update", x, t>> and <<"model", t>>.
   Frames are the marks they carry: every drawing and every step driven by hand leaves a mark of its own. *)
EXTENDS Rat, TLC, Json, CSV

CONSTANTS Ranges,      \* <<t_low, t_high>>, rationals
          Counts,      \* numbers of steps
          Times, Frames, MaxSas, MaxAnims, MaxOpen, MaxFrames, Depth, Sample, Ops

VARIABLES sa, open, bu, mark, hist
vars == <<sa, open, bu, mark, hist>>
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
Running == Len(hist) < Depth
On(op) == op \in Ops
Sas == 1..Len(sa)
Step(op, a, c) == hist' = Append(hist, [op |-> op, a |-> a, c |-> c, f |-> [i \in 1..Len(sa') |-> sa'[i].f], im |-> bu'.im])
\* open: steps driven by hand that are not finished, as <<animation, mark>>.  bu: held animations, images of the last run
Init == sa = <<>> /\ open = <<>> /\ bu = [h |-> <<>>, im |-> <<>>] /\ mark = 0 /\ hist = <<>>

New == \E r \in Some(Ranges), n \in Some(Counts) :
   /\ Running /\ On("simple") /\ Len(sa) < MaxSas
   /\ sa' = Append(sa, [r |-> r, n |-> n, f |-> <<>>, x |-> FALSE])
   /\ UNCHANGED <<open, bu, mark>> /\ Step("new", <<r, n>>, <<>>)
At(s, i) == RAdd(s.r[1], RMul(RSub(s.r[2], s.r[1]), <<i, s.n>>))
\* st: the step at which the drawing function fails (-1: none).  Whether that step leaves a frame is open, so nothing more is
\* done with an animation after that
Animate == \E i \in Some(Sas), st \in Some(IF On("fail") THEN {-1, -1, 0, 2} ELSE {-1}) :
   LET s == sa[i]
       bad == st >= 0 /\ st <= s.n
       k == IF bad THEN st ELSE s.n + 1
   IN /\ Running /\ On("simple") /\ ~s.x /\ Len(s.f) + k <= MaxFrames
      /\ ~(bad /\ \E j \in 1..Len(open) : open[j][1] = i)
      /\ sa' = [sa EXCEPT ![i].f = @ \o [j \in 1..k |-> mark + j], ![i].x = bad]
      /\ mark' = mark + s.n + 1
      /\ UNCHANGED <<open, bu>>
      /\ Step(IF bad THEN "fail" ELSE "animate", <<i, mark + 1, st>>, [j \in 1..(IF bad THEN st + 1 ELSE s.n + 1) |-> <<"draw", i, At(s, j - 1)>>])
Begin == \E i \in Some(Sas) :
   /\ Running /\ On("hand") /\ Len(open) < MaxOpen /\ ~sa[i].x
   /\ open' = Append(open, <<i, mark + 1>>) /\ mark' = mark + 1
   /\ UNCHANGED <<sa, bu>> /\ Step("begin", <<i, mark + 1>>, <<>>)
\* drawing by hand may go well or fail: the step is recorded either way
End == \E j \in Some(1..Len(open)), fails \in Some(BOOLEAN) :
   /\ Running /\ Len(sa[open[j][1]].f) < MaxFrames
   /\ sa' = [sa EXCEPT ![open[j][1]].f = Append(@, open[j][2])]
   /\ open' = SubSeq(open, 1, j - 1) \o SubSeq(open, j + 1, Len(open))
   /\ UNCHANGED <<bu, mark>> /\ Step("end", <<j, fails>>, <<>>)

\* an animation (1..MaxAnims), perhaps one that is there already
Hold == \E x \in Some(1..MaxAnims) : Running /\ On("builder") /\ Len(bu.h) < MaxAnims
   /\ bu' = [bu EXCEPT !.h = Append(@, x)] /\ UNCHANGED <<sa, open, mark>> /\ Step("hold", <<x>>, <<>>)
Calls(t) == [j \in 1..Len(bu.h) |-> <<"update", bu.h[j], t>>] \o <<<<"model", t>>>>
BuildOne == \E t \in Some(Times) :
   /\ Running /\ On("builder") /\ mark' = mark + 1 /\ UNCHANGED <<sa, open, bu>> /\ Step("one", <<t, mark + 1>>, Calls(t))
RECURSIVE All(_, _)
All(i, n) == IF i = n THEN <<>> ELSE Calls(R(i, n)) \o All(i + 1, n)
BuildAll == \E n \in Some(Frames) :
   /\ Running /\ On("builder")
   /\ bu' = [bu EXCEPT !.im = [i \in 1..n |-> mark + i]] /\ mark' = mark + n
   /\ UNCHANGED <<sa, open>> /\ Step("all", <<n, mark + 1>>, All(0, n))

Next == New \/ Animate \/ Begin \/ End \/ Hold \/ BuildOne \/ BuildAll
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------
\* animate() begins at t_low and ends at t_high
Ends == hist = <<>> \/ LET s == hist[Len(hist)] IN s.op = "animate" =>
   LET r == sa[s.a[1]].r IN s.c[1][3] = r[1] /\ s.c[Len(s.c)][3] = r[2] /\ Len(s.c) = sa[s.a[1]].n + 1
\* frames are recorded once, and only grow
Once == \A i, j \in Sas : \A k \in 1..Len(sa[i].f), l \in 1..Len(sa[j].f) : sa[i].f[k] = sa[j].f[l] => i = j /\ k = l
Grow == [][\A i \in Sas : SubSeq(sa'[i].f, 1, Len(sa[i].f)) = sa[i].f]_vars
View == <<sa, open, bu, Len(hist)>>
Emit(h) == CSVWrite("%1$s", <<ToJson(h)>>, "out.ndjson")
EmitStep == Emit(hist')
EmitFull == Len(hist) = Depth => Emit(hist)
==========================================================================
