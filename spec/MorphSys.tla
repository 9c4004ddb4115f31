------------------------------ MODULE MorphSys ------------------------------
(* Morphs of curves in a model.  The model is a fixed tree with named places, each showing one curve.  Curves are base
   curves (shapes that stay as they are) or morphs, whose shape is a weighted mean of the base curves (w: weights, one per
   base curve), or out of sight (w = <<>>).  A morph is made for a curve that the model shows and takes its place; updates
   move it, in any order and any number of times; restore puts the source back. *)
EXTENDS Rat, FiniteSets, TLC, Json, CSV

CONSTANTS Places,     \* number of places in the model; base curve i is at place i at first
          Bases,      \* number of base curves
          Counts,     \* control points of each base curve
          Times,      \* times (rationals) to update to
          Fns,        \* which time functions
          Steps,      \* sequences of step times of multi-step morphs (increasing, above 0)
          MaxMorphs, Depth, Sample, Ops

VARIABLES place, cur, mor, hist
vars == <<place, cur, mor, hist>>
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
Running == Len(hist) < Depth
On(op) == op \in Ops
Curves == 1..Len(cur)
Base == 1..Bases
Range(s) == {s[i] : i \in DOMAIN s}
Zero == <<0, 1>>
One == <<1, 1>>
Pure(b) == [i \in Base |-> IF i = b THEN One ELSE Zero]
Blend(u, v, t) == [i \in Base |-> RAdd(RMul(u[i], RSub(One, t)), RMul(v[i], t))]
Fits(w) == \A i \in Base : Abs(w[i][1]) <= 3000 /\ w[i][2] <= 3000

Step(op, a, r) == hist' = Append(hist, [op |-> op, a |-> a, r |-> r, pl |-> place', w |-> [c \in 1..Len(cur') |-> cur'[c].w]])
Init == /\ place = [p \in 1..Places |-> p]
        /\ cur = [b \in Base |-> [w |-> Pure(b), n |-> Counts[b], g |-> FALSE, m |-> 0]]
        /\ mor = <<>> /\ hist = <<>>

\* time functions: a number, or <<>> for none
Fn(f, t) == CASE f = "id" -> t
              [] f = "back" -> RSub(One, t)
              [] f = "late" -> IF RLt(t, <<1, 2>>) THEN <<>> ELSE RSub(RMul(<<2, 1>>, t), One)
              [] f = "third" -> <<1, 3>>
              [] f = "twice" -> RMul(<<2, 1>>, t)
              [] OTHER -> <<>>

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* points are added (for good) until all curves of S have as many
Grow(h, S) == LET n == Max({h[c].n : c \in S}) IN [c \in 1..Len(h) |-> IF c \in S /\ h[c].n < n THEN [h[c] EXCEPT !.n = n, !.g = TRUE] ELSE h[c]]
Shown == Range(place)

\* tg: target curves at times ts (a plain morph has one, at 1)
Make(op, s, tg, ts, f, a) ==
  LET h == IF op = "morph" THEN Grow(cur, {s} \cup Range(tg)) ELSE cur
      k == Len(cur) + 1
  IN /\ cur' = Append(h, [w |-> cur[s].w, n |-> Max({cur[c].n : c \in {s} \cup Range(tg)}), g |-> TRUE, m |-> Len(mor) + 1])
     /\ mor' = Append(mor, [op |-> op, s |-> s, o |-> cur[s].w, tg |-> tg, ts |-> ts, f |-> f, c |-> k, on |-> TRUE])
     /\ place' = [p \in 1..Places |-> IF place[p] = s THEN k ELSE place[p]]
     /\ Step(op, a, "")
NewMorph == \E s \in Some({c \in Shown : cur[c].w # <<>>}), t \in Some(Base), f \in Some(Fns) :
   /\ Running /\ On("morph") /\ Len(mor) < MaxMorphs /\ s # t
   /\ Make("morph", s, <<t>>, <<One>>, f, <<s, t, f>>)
\* equal numbers of points asked for
NewStrict == \E s \in Some({c \in Shown \cap Base : ~cur[c].g}), t \in Some({c \in Base : ~cur[c].g}) :
   /\ Running /\ On("strict") /\ Len(mor) < MaxMorphs /\ s # t
   /\ IF cur[s].n = cur[t].n THEN Make("strict", s, <<t>>, <<One>>, "id", <<s, t, "id">>)
      ELSE UNCHANGED <<place, cur, mor>> /\ Step("strict", <<s, t, "id">>, "MorphError")
\* a source that is nowhere in the model
Stranger == \E s \in Some({b \in Base : b > Places}), t \in Some(Base), k \in Some({"morph", "multi"} \cap Ops) :
   /\ Running /\ On("stranger") /\ s # t
   /\ cur' = (IF k = "morph" THEN Grow(cur, {s, t}) ELSE cur)
   /\ UNCHANGED <<place, mor>>
   /\ Step("stranger", <<k, s, t>>, "MorphError")
NewMulti == \E s \in Some({c \in Shown : cur[c].w # <<>>}), ts \in Some(Steps), f \in Some(Fns), r \in Some(BOOLEAN) :
   \E tg \in Some({g \in [1..Len(ts) -> Base] : \A i \in DOMAIN g : g[i] # s}) :
   /\ Running /\ On("multi") /\ Len(mor) < MaxMorphs
   /\ Make("multi", s, tg, ts, f, <<s, tg, ts, f, r>>)

\* the shape of morph m at t, given the curves h
At(h, m, t) ==
  LET M == mor[m]
      v == Fn(M.f, t)
  IN IF v = <<>> THEN <<>>
     ELSE IF M.op # "multi" THEN IF h[M.s].w = <<>> THEN <<"bad">> ELSE Blend(h[M.s].w, h[M.tg[1]].w, v)
     ELSE LET n == Len(M.ts)
              \* steps not after v, counting the source at 0
              k == Cardinality({i \in 1..n : RLe(M.ts[i], v)}) + (IF RLe(Zero, v) THEN 1 ELSE 0)
              W(i) == IF i = 1 THEN M.o ELSE h[M.tg[i - 1]].w
              T(i) == IF i = 1 THEN Zero ELSE M.ts[i - 1]
          IN IF k = 0 THEN W(1) ELSE IF k > n THEN W(n + 1)
             ELSE Blend(W(k), W(k + 1), RDiv(RSub(v, T(k)), RSub(T(k + 1), T(k))))
\* morphs in the sequence s updated to t one after the other
RECURSIVE All(_, _, _)
All(h, s, t) ==
  IF s = <<>> THEN h
  ELSE LET m == Head(s) w == At(h, m, t) IN
       IF w = <<"bad">> \/ (w # <<>> /\ ~Fits(w)) THEN <<>>
       ELSE LET S == IF mor[m].op = "multi" THEN {} ELSE {mor[m].s, mor[m].tg[1], mor[m].c}
                g == IF S = {} THEN h ELSE Grow(h, S)
            IN All([g EXCEPT ![mor[m].c].w = w], Tail(s), t)
Update == \E m \in Some(1..Len(mor)), t \in Some(Times) :
   LET h == All(cur, <<m>>, t) IN Running /\ h # <<>> /\ cur' = h /\ UNCHANGED <<place, mor>> /\ Step("update", <<m, t>>, "")
UpdateAll == \E t \in Some(Times) :
   LET h == All(cur, [i \in 1..Len(mor) |-> i], t) IN Running /\ On("all") /\ mor # <<>> /\ h # <<>> /\ cur' = h /\ UNCHANGED <<place, mor>> /\ Step("all", <<t>>, "")
Restore == \E m \in Some({m \in 1..Len(mor) : mor[m].c \in Shown}) :
   /\ Running /\ On("restore")
   /\ place' = [p \in 1..Places |-> IF place[p] = mor[m].c THEN mor[m].s ELSE place[p]]
   /\ mor' = [mor EXCEPT ![m].on = FALSE]
   /\ UNCHANGED cur /\ Step("restore", <<m>>, "")

Next == NewMorph \/ NewStrict \/ Stranger \/ NewMulti \/ Update \/ UpdateAll \/ Restore
Spec == Init /\ [][Next]_vars
\* random walks update more often
Walk == Init /\ [][Next \/ Update \/ Update \/ UpdateAll \/ UpdateAll]_vars

----------------------------------------------------------------------------
\* weights of what can be seen add up to one; base curves stay what they are
RECURSIVE Total(_, _)
Total(w, i) == IF i = 0 THEN Zero ELSE RAdd(w[i], Total(w, i - 1))
Mean == \A c \in Curves : cur[c].w # <<>> => Total(cur[c].w, Bases) = One
BasesStay == \A b \in Base : cur[b].w = Pure(b)
\* every place shows its own curve or a chain of active morphs that ends in it
RECURSIVE Root(_)
Root(c) == IF cur[c].m = 0 THEN c ELSE Root(mor[cur[c].m].s)
Homes == \A p \in 1..Places : Root(place[p]) = p
Active == \A p \in 1..Places : place[p] \in Base \/ mor[cur[place[p]].m].on
\* a morph that was just updated through the plain function shows source and target at 0 and 1
Ends == hist = <<>> \/ LET s == hist[Len(hist)] IN s.op = "update" /\ mor[s.a[1]].f = "id" =>
   LET M == mor[s.a[1]] IN /\ s.a[2] = Zero => cur[M.c].w = (IF M.op = "multi" THEN M.o ELSE cur[M.s].w)
                           /\ \A i \in 1..Len(M.ts) : s.a[2] = M.ts[i] => cur[M.c].w = cur[M.tg[i]].w
\* nothing changes but what was updated
OnlyUpdated == [][\A c \in Curves : cur'[c].w # cur[c].w =>
   LET s == hist'[Len(hist')] IN s.op = "all" \/ (s.op = "update" /\ mor[s.a[1]].c = c)]_vars

View == <<place, cur, mor, Len(hist)>>
Emit(h) == CSVWrite("%1$s", <<ToJson(h)>>, "out.ndjson")
EmitStep == Emit(hist')
EmitFull == Len(hist) = Depth => Emit(hist)
==========================================================================
