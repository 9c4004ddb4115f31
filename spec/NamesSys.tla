------------------------------ MODULE NamesSys ------------------------------
(* Groups as namespaces.  Names are sequences of parts: <<"a">> is a plain name, <<"a", "b">> the dotted "a.b".
   Objects are elements [t, v, n, kids, pts]: kind, value (which geometry), current name, for groups the children in order
   as <<key, object>> and the named points as <<name, value>>. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Names, Leafs, Values, MaxObjs, MaxKids, MaxPts, Depth, Sample, Ops

VARIABLES ob, dead, hist
vars == <<ob, dead, hist>>

\* (mentioning the state keeps TLC from evaluating the random choice once and for all)
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
Ids == 1..Len(ob)
Range(s) == {s[i] : i \in 1..Len(s)}
Keys(o) == [i \in 1..Len(o.kids) |-> o.kids[i][1]]
KidIds(o) == [i \in 1..Len(o.kids) |-> o.kids[i][2]]
IsGroup(i) == ob[i].t = "group"
Placed(h, i) == \E g \in 1..Len(h) : i \in Range(KidIds(h[g]))
RECURSIVE Below(_, _)
Below(h, i) == {i} \cup UNION {Below(h, j) : j \in Range(KidIds(h[i]))}
RECURSIVE High(_, _)
High(h, i) == 1 + (LET s == {High(h, j) : j \in Range(KidIds(h[i]))} IN IF s = {} THEN 0 ELSE CHOOSE m \in s : \A o \in s : o <= m)

\* what == means for elements: same kind, name and value; groups: same children under the same keys, same points
RECURSIVE Equal(_, _, _)
Equal(h, i, j) ==
  /\ h[i].t = h[j].t /\ h[i].n = h[j].n /\ h[i].v = h[j].v
  /\ Range(Keys(h[i])) = Range(Keys(h[j]))
  /\ Range(h[i].pts) = Range(h[j].pts)
  /\ \A a \in Range(h[i].kids), b \in Range(h[j].kids) : a[1] = b[1] => Equal(h, a[2], b[2])

Dotted(n) == Len(n) > 1
Last(n) == <<n[Len(n)]>>
Auto(t, used) == LET k == CHOOSE k \in 0..Cardinality(used) : <<t \o "#" \o ToString(k)>> \notin used /\ \A m \in 0..k-1 : <<t \o "#" \o ToString(m)>> \in used
                 IN <<t \o "#" \o ToString(k)>>
\* the name under which an element of kind t goes into a group that has names used when added as n; <<>>: refused
Given(n, t, used, fix) ==
  LET n1 == IF (fix /\ Dotted(n)) \/ n \in used
            THEN (IF Last(n) \in used THEN Auto(t, used) ELSE Last(n)) ELSE n
  IN IF Dotted(n1) THEN <<>> ELSE n1

Insert(h, g, n, e) == [h EXCEPT ![g].kids = Append(@, <<n, e>>), ![e].n = n]
Obj(t, v, n) == [t |-> t, v |-> v, n |-> n, kids |-> <<>>, pts |-> <<>>]

\* replacing in group g everything equal to e by r, depth first in order: [h, c, ok].  e is looked at as it is at each moment
RECURSIVE Repl(_, _, _, _, _)
RECURSIVE RK(_, _, _, _, _)
Repl(h, g, e, r, c) == RK([h |-> h, c |-> c, ok |-> TRUE], g, e, r, 1)
RK(s, g, e, r, k) ==
  IF ~s.ok \/ k > Len(s.h[g].kids) THEN s
  ELSE LET key == s.h[g].kids[k][1]  x == s.h[g].kids[k][2] IN
    IF Equal(s.h, x, e)
    THEN IF (s.h[r].n # key /\ s.h[r].n \in Range(Keys(s.h[g]))) \/ Dotted(s.h[r].n)
         THEN [s EXCEPT !.ok = FALSE]
         ELSE RK([s EXCEPT !.h = [@ EXCEPT ![g].kids[k] = <<s.h[r].n, r>>], !.c = @ + 1], g, e, r, k + 1)
    ELSE IF s.h[x].t = "group" THEN RK(Repl(s.h, x, e, r, s.c), g, e, r, k + 1)
    ELSE RK(s, g, e, r, k + 1)

Init == ob = <<>> /\ dead = FALSE /\ hist = <<>>
Running == Len(hist) < Depth /\ ~dead
Step(op, a, r) == hist' = Append(hist, [op |-> op, a |-> a, r |-> r, o |-> ob'])
To(op, a, r, h) == Running /\ Len(h) <= MaxObjs /\ ob' = h /\ UNCHANGED dead /\ Step(op, a, r)
Refuse(op, a, why) == Running /\ UNCHANGED <<ob, dead>> /\ Step(op, a, why)
Groups == {i \in Ids : IsGroup(i)}
Free == {i \in Ids : ~Placed(ob, i)}
On(op) == op \in Ops

New == \E t \in Some(Leafs), n \in Some(Names), v \in Some(Values) : On("new") /\ To("new", <<>>, 0, Append(ob, Obj(t, v, n)))
NewGroup == \E n \in Some(Names) : On("new") /\ To("newgroup", <<>>, 0, Append(ob, Obj("group", 0, n)))
\* Group(..., elems=[...])
RECURSIVE Fill(_, _, _, _)
Fill(h, g, es, fix) ==
  IF es = <<>> \/ h = <<>> THEN h
  ELSE LET n == Given(h[Head(es)].n, h[Head(es)].t, Range(Keys(h[g])), fix) IN
       IF n = <<>> THEN <<>> ELSE Fill(Insert(h, g, n, Head(es)), g, Tail(es), fix)
GroupOf == \E n \in Some(Names), k \in Some(1..3), fix \in Some(BOOLEAN), e1 \in Some(Free), e2 \in Some(Free), e3 \in Some(Free) :
   LET f == SubSeq(<<e1, e2, e3>>, 1, k)
       h == Fill(Append(ob, Obj("group", 0, n)), Len(ob) + 1, f, fix) IN
   /\ On("groupof") /\ (\A i, j \in 1..k : i # j => f[i] # f[j])
   /\ (Sample \/ (k < 3 => e3 = e1 /\ (k < 2 => e2 = e1))) /\ h # <<>> /\ To("groupof", <<f, fix>>, 0, h)
CanHold(g, e) == e \in Free /\ e # g /\ g \notin Below(ob, e)
Add == \E g \in Some(Groups), n \in Some(Names), fix \in Some(BOOLEAN) : \E e \in Some({x \in Free : CanHold(g, x)}) :
   LET m == Given(n, ob[e].t, Range(Keys(ob[g])), fix) IN
   /\ On("add") /\ Len(ob[g].kids) < MaxKids
   /\ IF m = <<>> THEN Refuse("add", <<g, n, e, fix>>, "ValueError")
      ELSE To("add", <<g, n, e, fix>>, m, Insert(ob, g, m, e))
\* the builder makes the element and adds it
Make == \E g \in Some(Groups), t \in Some(Leafs \cup {"group"}), n \in Some(Names), v \in Some(Values) :
   LET w == IF t = "group" THEN 0 ELSE v
       m == Given(n, t, Range(Keys(ob[g])), FALSE) IN
   /\ On("make") /\ Len(ob[g].kids) < MaxKids
   /\ IF m = <<>> THEN Refuse("make", <<g, n, t, w>>, "ValueError")
      ELSE To("make", <<g, n, t, w>>, m, Insert(Append(ob, Obj(t, w, n)), g, m, Len(ob) + 1))
\* (something that holds a part of g itself cannot be put into g: it would contain itself)
Replace == \E g \in Some(Groups), e \in Some(Ids) : \E r \in Some({x \in Free : x # e /\ Below(ob, x) \cap Below(ob, g) = {}}) :
   /\ On("replace")
   /\ LET s == Repl(ob, g, e, r, 0) IN
      IF s.ok THEN To("replace", <<g, e, r>>, s.c, s.h)
      ELSE Running /\ dead' = TRUE /\ UNCHANGED ob /\ Step("refused", <<g, e, r>>, "ValueError")
AddPt == \E g \in Some(Groups), n \in Some(Names), v \in Some(Values) :
   /\ On("pts") /\ Len(ob[g].pts) < MaxPts
   /\ IF Dotted(n) \/ \E p \in Range(ob[g].pts) : p[1] = n THEN Refuse("addpt", <<g, n, v>>, "AssertionError")
      ELSE To("addpt", <<g, n, v>>, 0, [ob EXCEPT ![g].pts = Append(@, <<n, v>>)])
Del == \E g \in Some({i \in Groups : ob[i].kids # <<>>}) : \E k \in Some(1..Len(ob[g].kids)) :
   On("del") /\ To("del", <<g, k>>, 0, [ob EXCEPT ![g].kids = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))])

Next == New \/ NewGroup \/ GroupOf \/ Add \/ Make \/ Replace \/ AddPt \/ Del
WalkNext == Next \/ Add \/ Make \/ Make \/ Replace \/ Replace
Walk == Init /\ [][WalkNext]_vars
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Unique == \A g \in Ids : \A i, j \in 1..Len(ob[g].kids) : i # j => ob[g].kids[i][1] # ob[g].kids[j][1]
KeysAreNames == \A g \in Ids : \A k \in Range(ob[g].kids) : ob[k[2]].n = k[1] /\ ~Dotted(k[1])
Now == hist[Len(hist)]
Was == IF Len(hist) < 2 THEN <<>> ELSE hist[Len(hist) - 1].o
\* nothing already in a group is displaced or lost by any step but a deletion or replacement
NothingLost == hist = <<>> \/ Now.op \in {"del", "replace"} \/ \A g \in 1..Len(Was) : SubSeq(ob[g].kids, 1, Len(Was[g].kids)) = Was[g].kids
\* a replacement stands where the replaced element stood; everything else stays
PlacesKept == hist = <<>> \/ Now.op # "replace" \/
   \A g \in 1..Len(Was) : /\ Len(ob[g].kids) = Len(Was[g].kids)
                          /\ \A k \in 1..Len(Was[g].kids) : ob[g].kids[k] = Was[g].kids[k] \/ (ob[g].kids[k][2] = Now.a[3] /\ Was[g].kids[k][2] # Now.a[3])
Acyclic == \A g \in Ids : \A k \in Range(KidIds(ob[g])) : g \notin Below(ob, k)

View == <<ob, dead>>
Emit == CSVWrite("%1$s", <<ToJson(hist)>>, "out.ndjson")
EmitStep == CSVWrite("%1$s", <<ToJson(hist')>>, "out.ndjson")
EmitEnd == (Len(hist) = Depth \/ dead) => Emit
==========================================================================
