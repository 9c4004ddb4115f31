------------------------------ MODULE WalkSys ------------------------------
(* A caller with a drawing context (matrix, saved matrices, drawing target, shadow colour) who draws, walks, measures and
   transforms parts of a model, in the small steps of that work: entering a part saves the matrix and composes the part's own
   transform, leaving restores it, a failure unwinds what was entered.  Walks are suspended at every element they hand out, and
   the caller may use the context (or start further work) meanwhile.  Nodes: groups, shapes with holes (first child the
   outside), leaves; bad leaves raise: "entry" at once, "in" while their own transform is in force, "pen" when drawn. *)
EXTENDS Aff, FiniteSets, TLC, Json, CSV

CONSTANTS Trees, MaxNodes, Xs, Us, Bads, Ops, Own, Targets, Colours, MaxActs, MaxStack, Depth, Sample, Lim

VARIABLES tr, size, m, st, tgt, col, acts, hist
vars == <<tr, size, m, st, tgt, col, acts, hist>>

\* (mentioning the state keeps TLC from evaluating the random choice once and for all)
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
Pick(s) == {s[i] : i \in 1..Len(s)}
Nodes == 1..Len(tr)
RECURSIVE Below(_)
Below(n) == {n} \cup UNION {Below(tr[n].kids[i]) : i \in 1..Len(tr[n].kids)}
Drawing == {"paths", "cpaths", "draw", "shadow"}
Walks == {"iter", "xf"}
Quiet == {"transform", "curves", "copy"}

Top == acts[Len(acts)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
SetTop(a) == [acts EXCEPT ![Len(acts)] = a]
F(a) == a.fr[Len(a.fr)]
Entered(a) == Len(a.fr) - 1
Want(a) == Len(a.bst) + (IF a.own THEN 0 ELSE Entered(a))
\* what the caller has saved on top of the work in progress
Extra == IF acts = <<>> THEN Len(st) ELSE Len(st) - Want(Top)
Resting == IF acts = <<>> THEN TRUE ELSE Top.s \in {"new", "yield"}
Free == size = 0 /\ Resting /\ Len(hist) < Depth

Step(op, a, r, log) == hist' = Append(hist, [op |-> op, a |-> a, r |-> r, log |-> log, m |-> m', st |-> st', tgt |-> tgt', col |-> col'])

-----------------------------------------------------------------------------
(* the model *)
Node(t, x, hid, bad) == [t |-> t, x |-> x, kids |-> <<>>, hid |-> hid, bad |-> bad]
Init == /\ \E t \in (IF MaxNodes = 0 THEN Trees ELSE {<<Node("group", Ident, FALSE, "")>>}) : tr = t
        /\ \E n \in (IF MaxNodes = 0 THEN {0} ELSE 4..MaxNodes) : size = n
        /\ m = Ident /\ st = <<>> /\ tgt = "A" /\ col = "none" /\ acts = <<>> /\ hist = <<>>
Grown(p, t, x, hid, bad) ==
  LET n == Len(tr) + 1
      t1 == Append([tr EXCEPT ![p].kids = Append(@, n)], Node(t, x, hid, IF t = "holes" /\ bad # "pen" THEN "" ELSE bad))
  IN IF t = "holes" THEN Append([t1 EXCEPT ![n].kids = <<n + 1>>], Node("leaf", Ident, FALSE, IF bad = "pen" THEN "" ELSE bad)) ELSE t1
Plant ==
  /\ size > 0
  /\ IF Len(tr) >= size THEN size' = 0 /\ UNCHANGED tr
     ELSE \E p \in Some({n \in Nodes : tr[n].t = "group" /\ Len(tr[n].kids) < 4}), q \in Some({n \in Nodes : tr[n].t = "holes" /\ Len(tr[n].kids) < 3} \cup {1}),
             t \in Some({"group", "leaf", "holes"}), u \in Some({1, 2}), x \in Some(Xs), hid \in Some({1, 2, 3, 4}), bad \in Some(Bads), w \in Some({1, 2, 3}) :
          /\ tr' = IF u = 1 /\ tr[q].t = "holes" THEN Grown(q, "leaf", x, FALSE, IF w > 1 \/ bad = "pen" THEN "" ELSE bad)
                   ELSE Grown(p, t, x, t = "group" /\ hid = 1, IF t # "group" /\ w = 1 THEN bad ELSE "")
          /\ UNCHANGED size
  /\ UNCHANGED <<m, st, tgt, col, acts, hist>>

-----------------------------------------------------------------------------
(* what the caller does *)
Push == /\ Free /\ Len(st) < MaxStack /\ st' = Append(st, m) /\ UNCHANGED <<tr, size, m, tgt, col, acts>> /\ Step("push", <<>>, "", <<>>)
Compose == \E x \in Some(Us) : /\ Free /\ (acts = <<>> \/ Extra > 0) /\ AFits(Mul(m, x), Lim) /\ m' = Mul(m, x)
                               /\ UNCHANGED <<tr, size, st, tgt, col, acts>> /\ Step("compose", x, "", <<>>)
Pop == /\ Free /\ Extra > 0 /\ m' = st[Len(st)] /\ st' = Front(st) /\ UNCHANGED <<tr, size, tgt, col, acts>> /\ Step("pop", <<>>, "", <<>>)
Retarget == \E t \in Some(Targets) : Free /\ acts = <<>> /\ t # tgt /\ tgt' = t /\ UNCHANGED <<tr, size, m, st, col, acts>> /\ Step("target", <<t>>, "", <<>>)
Recolour == \E c \in Some(Colours) : Free /\ acts = <<>> /\ c # col /\ col' = c /\ UNCHANGED <<tr, size, m, st, tgt, acts>> /\ Step("colour", <<c>>, "", <<>>)

Act(op, own, r, s) == [op |-> op, own |-> own, r |-> r, s |-> s, fr |-> <<[n |-> 0, k |-> 1]>>, bm |-> m, bst |-> st, bt |-> tgt, bc |-> col,
                       pm |-> Ident, ps |-> <<>>, log |-> <<>>]
\* (a walk needs a tree to walk; a shape with holes is walked and drawn like a group)
Roots(op) == IF op \in Walks THEN {n \in Nodes : tr[n].t # "leaf"} ELSE Nodes
Begin == \E op \in Some(Ops \cap Walks), own \in Some(Own) : \E r \in Some(Roots(op)) :
   /\ Free /\ Len(acts) < MaxActs
   /\ acts' = Append(acts, Act(op, own, r, "new")) /\ UNCHANGED <<tr, size, m, st, tgt, col>> /\ Step("begin", <<op, own, r>>, "", <<>>)
Work == \E op \in Some(Ops \cap Drawing) : \E r \in Some(Roots(op)) :
   /\ Free /\ Len(acts) < 4
   /\ acts' = Append(acts, Act(op, FALSE, r, "run"))
   /\ IF op = "shadow" THEN tgt' = "shadow" /\ col' = "grey" ELSE UNCHANGED <<tgt, col>>
   /\ UNCHANGED <<tr, size, m, st, hist>>
Other == \E op \in Some(Ops \cap Quiet), r \in Some(Nodes) :
   /\ Free /\ UNCHANGED <<tr, size, m, st, tgt, col, acts>>
   /\ Step(op, <<r>>, IF \E n \in Below(r) : tr[n].bad \in {"entry", "in"} THEN "raise" ELSE "ok", <<>>)
\* the drawing target itself fails at some call
DrawFails == \E r \in Some(Nodes), n \in Some(1..6) :
   /\ Free /\ "drawf" \in Ops /\ UNCHANGED <<tr, size, m, st, tgt, col, acts>> /\ Step("drawf", <<r, n>>, "any", <<>>)
Next1 == /\ Free /\ acts # <<>> /\ (Top.s = "new" \/ Extra = 0)
         /\ acts' = SetTop(IF Top.s = "new" THEN [Top EXCEPT !.s = "run", !.bm = m, !.bst = st, !.bt = tgt, !.bc = col] ELSE [Top EXCEPT !.s = "run"])
         /\ UNCHANGED <<tr, size, m, st, tgt, col, hist>>
\* the caller gives up on a walk, or throws into it
Quit == \E how \in Some({"close", "throw"}) :
   /\ Free /\ acts # <<>> /\ Top.s = "yield" /\ Extra = 0
   /\ acts' = SetTop([Top EXCEPT !.s = how]) /\ UNCHANGED <<tr, size, m, st, tgt, col, hist>>
Drop == /\ Free /\ acts # <<>> /\ Top.s = "new"
        /\ acts' = Front(acts) /\ UNCHANGED <<tr, size, m, st, tgt, col>> /\ Step("drop", <<>>, "", <<>>)

-----------------------------------------------------------------------------
(* the work itself *)
Here(a) == IF a.own THEN a.pm ELSE m
Save(a, c) == \* enter node c
  IF a.own THEN /\ acts' = SetTop([a EXCEPT !.ps = Append(@, a.pm), !.pm = Mul(@, tr[c].x), !.fr = Append([@ EXCEPT ![Len(@)].k = @ + 1], [n |-> c, k |-> 1])])
                /\ UNCHANGED <<m, st>>
  ELSE /\ acts' = SetTop([a EXCEPT !.fr = Append([@ EXCEPT ![Len(@)].k = @ + 1], [n |-> c, k |-> 1]), !.log = IF tr[c].t = "leaf" THEN Append(@, <<c, m, tgt, col>>) ELSE @])
       /\ st' = Append(st, m) /\ m' = Mul(m, tr[c].x)
Back(a) ==    \* leave it
  IF a.own THEN /\ acts' = SetTop([a EXCEPT !.pm = a.ps[Len(a.ps)], !.ps = Front(@), !.fr = Front(@)]) /\ UNCHANGED <<m, st>>
  ELSE /\ acts' = SetTop([a EXCEPT !.fr = Front(@)]) /\ m' = st[Len(st)] /\ st' = Front(st)
Finish(a, op, r) == /\ acts' = Front(acts) /\ tgt' = a.bt /\ col' = a.bc /\ UNCHANGED <<tr, size, m, st>> /\ Step(op, <<a.op, a.r>>, r, a.log)

Kids(a) == IF F(a).n = 0 THEN <<a.r>> ELSE IF a.op = "xf" /\ Entered(a) > 1 THEN <<>> ELSE tr[F(a).n].kids
IsLeafFor(a, c) == tr[c].t = "leaf" \/ (a.op = "xf" /\ F(a).n # 0)
\* for shallow walks, a child that is a group is copied whole
BadFor(a, c) == IF a.op = "xf" THEN \E n \in Below(c) : tr[n].bad \in {"entry", "in"} ELSE tr[c].bad \in {"entry", "in"}
\* the parts of a shape with holes have its pen
NoPen(n) == tr[n].bad = "pen" \/ \E p \in Nodes : tr[p].t = "holes" /\ tr[p].bad = "pen" /\ n \in Pick(tr[p].kids)
PenBad(a) == \E i \in 1..Len(a.log) : NoPen(a.log[i][1])
Micro ==
  /\ acts # <<>> /\ Top.s = "run"
  /\ LET a == Top  ks == Kids(a) IN
     IF F(a).k > Len(ks)
     THEN IF F(a).n # 0 THEN Back(a) /\ UNCHANGED <<tr, size, tgt, col, hist>>
          ELSE IF a.op \in Walks THEN Finish(a, "next", "stop")
          ELSE Finish(a, a.op, IF a.op \in {"draw", "shadow"} /\ PenBad(a) THEN "raise" ELSE "ok")
     ELSE LET c == ks[F(a).k] IN
       IF a.op \in Drawing /\ tr[c].hid
       THEN acts' = SetTop([a EXCEPT !.fr[Len(a.fr)].k = @ + 1]) /\ UNCHANGED <<tr, size, m, st, tgt, col, hist>>
       ELSE IF ~IsLeafFor(a, c) THEN Save(a, c) /\ UNCHANGED <<tr, size, tgt, col, hist>>
       ELSE IF a.op \in Walks
       THEN IF BadFor(a, c) THEN acts' = SetTop([a EXCEPT !.s = "raise"]) /\ UNCHANGED <<tr, size, m, st, tgt, col, hist>>
            ELSE /\ acts' = SetTop([a EXCEPT !.s = "yield", !.fr[Len(a.fr)].k = @ + 1]) /\ UNCHANGED <<tr, size, m, st, tgt, col>>
                 /\ Step("next", <<a.op, a.r>>, "elem", <<<<c, Here(a)>>>>)
       ELSE IF tr[c].bad = "entry" THEN acts' = SetTop([a EXCEPT !.s = "raise", !.log = Append(@, <<c, m, tgt, col>>)]) /\ UNCHANGED <<tr, size, m, st, tgt, col, hist>>
       ELSE Save(a, c) /\ UNCHANGED <<tr, size, tgt, col, hist>>
\* a leaf that fails with its own transform in force
InFails == IF acts # <<>> /\ Top.s = "run" /\ F(Top).n # 0 THEN tr[F(Top).n].t = "leaf" /\ tr[F(Top).n].bad = "in" ELSE FALSE
Run == IF InFails THEN acts' = SetTop([Top EXCEPT !.s = "raise"]) /\ UNCHANGED <<tr, size, m, st, tgt, col, hist>> ELSE Micro
Unwind == /\ acts # <<>> /\ Top.s \in {"raise", "close", "throw"}
          /\ LET a == Top IN
             IF F(a).n # 0 THEN Back(a) /\ UNCHANGED <<tr, size, tgt, col, hist>>
             ELSE IF a.s = "raise" THEN Finish(a, IF a.op \in Walks THEN "next" ELSE a.op, "raise") ELSE Finish(a, a.s, "")

User == Push \/ Compose \/ Pop \/ Retarget \/ Recolour \/ Begin \/ Work \/ Other \/ DrawFails \/ Next1 \/ Quit \/ Drop
Next == Plant \/ User \/ Run \/ Unwind
WalkNext == Next \/ Next1 \/ Next1 \/ Next1 \/ Work \/ Work \/ Begin
Walk == Init /\ [][WalkNext]_vars
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Prod(_, _, _)
Prod(x, fr, i) == IF i > Len(fr) THEN x ELSE Prod(IF fr[i].n = 0 THEN x ELSE Mul(x, tr[fr[i].n].x), fr, i + 1)
\* the matrix in force is the product of the transforms of the parts that were entered
MatrixIsProduct == acts # <<>> /\ Extra = 0 /\ Top.s # "new" => Here(Top) = Prod(IF Top.own THEN Ident ELSE Top.bm, Top.fr, 1)
\* work in progress only adds to what was saved
SavedKept == \A i \in 1..Len(acts) : Len(st) >= Len(acts[i].bst) /\ SubSeq(st, 1, Len(acts[i].bst)) = acts[i].bst
\* whatever ends, however it ends, leaves the context as it found it
Restored == [][Len(acts') < Len(acts) /\ Top.s # "new" => m' = Top.bm /\ st' = Top.bst /\ tgt' = Top.bt /\ col' = Top.bc]_vars

View == <<tr, size, m, st, tgt, col, acts, Len(hist)>>
Emit(h) == CSVWrite("%1$s", <<ToJson([tree |-> tr, h |-> h])>>, "out.ndjson")
EmitStep == hist' = hist \/ Emit(hist')
EmitFull == Len(hist) = Depth => Emit(hist)
==========================================================================
