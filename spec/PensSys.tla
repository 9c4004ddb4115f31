------------------------------ MODULE PensSys ------------------------------
(* Pens, pens with brushes, and palettes that give one of these for every kind of shape; colours only (without widths) and
   their palettes.  All are values: every operation makes a new one and no operation changes one that is there. *)
EXTENDS Rat, FiniteSets, TLC, Json, CSV

CONSTANTS Colours,     \* 1..n (the last one is transparent)
          Widths,      \* rationals
          Xforms,      \* maps: <<width factor of the map as a rational, index>>
          MaxObjs, Depth, Sample, Ops

VARIABLES ob, hist
vars == <<ob, hist>>
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
Running == Len(hist) < Depth
On(op) == op \in Ops
Kinds == {"edge", "filled", "clear", "edge_filled", "edge_clear"}
None == 0
Nil == [c |-> None, w |-> <<0, 1>>]          \* no pen
PenOf(c, w) == [c |-> c, w |-> w]
PB(p, b) == [p |-> p, b |-> b]
Clear == Cardinality(Colours)
Ids(t) == {i \in 1..Len(ob) : ob[i].t = t}

Init == ob = <<>> /\ hist = <<>>
\* (only the new value is reported: the others stay)
Step(op, a, r) == hist' = Append(hist, [op |-> op, a |-> a, r |-> r])
New(op, a, t, v) == Running /\ Len(ob) < MaxObjs /\ ob' = Append(ob, [t |-> t, v |-> v]) /\ Step(op, a, <<v>>)
Ask(op, a, r) == Running /\ UNCHANGED ob /\ Step(op, a, r)

NewPen == \E c \in Some(Colours), w \in Some(Widths) : New("pen", <<c, w>>, "pen", PenOf(c, w))
\* without a width: the thinnest line
NewThin == \E c \in Some(Colours) : New("thin", <<c>>, "pen", PenOf(c, <<0, 1>>))
\* a pen, or a colour, or a colour and a width; with a brush or not
NewPb == \E c \in Some(Colours), w \in Some(Widths), b \in Some(Colours \cup {None}), k \in Some({"colour", "pair", "none"}) :
   New("pb", <<k, c, w, b>>, "pb", PB(CASE k = "colour" -> PenOf(c, <<0, 1>>) [] k = "pair" -> PenOf(c, w) [] OTHER -> Nil, b))
NewPbOf == \E i \in Some(Ids("pen")), b \in Some(Colours \cup {None}) : New("pb of pen", <<i, b>>, "pb", PB(ob[i].v, b))

Draft(c) == [k \in Kinds |-> PB(PenOf(c, <<0, 1>>), None)]
Prod(c, f, x, w) == [k \in Kinds |-> CASE k = "edge" -> PB(PenOf(c, w), None)
                                       [] k = "filled" -> PB(Nil, c)
                                       [] k = "clear" -> PB(Nil, x)
                                       [] k = "edge_filled" -> PB(PenOf(c, w), f)
                                       [] k = "edge_clear" -> PB(PenOf(c, w), x)]
\* d: number of trailing arguments left to their defaults (width 0, transparent, transparent fill)
NewPalette == \E draft \in Some(BOOLEAN), c \in Some(Colours), f \in Some(Colours), x \in Some(Colours), w \in Some(Widths), d \in Some(0..3) :
   New("palette", <<draft, c, f, x, w, d>>, "pal",
       IF draft THEN Draft(c) ELSE Prod(c, IF d >= 3 THEN Clear ELSE f, IF d >= 2 THEN Clear ELSE x, IF d >= 1 THEN <<0, 1>> ELSE w))
\* given kind by kind; the others are a black line of one pixel
Black == PB(PenOf(1, <<1, 1>>), None)
NewCustom == \E i \in Some(Ids("pb")), j \in Some(Ids("pb")), k1 \in Some(Kinds), k2 \in Some(Kinds) :
   New("custom", <<i, j, k1, k2>>, "pal", [k \in Kinds |-> IF k = k1 THEN ob[i].v ELSE IF k = k2 THEN ob[j].v ELSE Black])
Kind == \E i \in Some(Ids("pal")), k \in Some(Kinds) : New("kind", <<i, k>>, "pb", ob[i].v[k])

WithWidth(p, w) == IF p.p.c = None THEN p ELSE PB(PenOf(p.p.c, w), p.b)
PenBrushTo == \E i \in Some(Ids("pen")), c \in Some(Colours) : New("pen brush", <<i, c>>, "pen", PenOf(c, ob[i].v.w))
PenWidthTo == \E i \in Some(Ids("pen")), w \in Some(Widths) : New("pen width", <<i, w>>, "pen", PenOf(ob[i].v.c, w))
PenBothTo == \E i \in Some(Ids("pen")), c \in Some(Colours), w \in Some(Widths) : New("pen both", <<i, c, w>>, "pen", PenOf(c, w))
PbPenTo == \E i \in Some(Ids("pb")), j \in Some(Ids("pen")) : New("pb pen", <<i, j>>, "pb", PB(ob[j].v, ob[i].v.b))
PbColourTo == \E i \in Some(Ids("pb")), c \in Some(Colours) : New("pb colour", <<i, c>>, "pb", PB(PenOf(c, <<0, 1>>), ob[i].v.b))
PbWidthTo == \E i \in Some(Ids("pb")), w \in Some(Widths) : New("pb width", <<i, w>>, "pb", WithWidth(ob[i].v, w))
PbBrushTo == \E i \in Some(Ids("pb")), c \in Some(Colours) : New("pb brush", <<i, c>>, "pb", PB(ob[i].v.p, c))
PbWidthBrushTo == \E i \in Some(Ids("pb")), w \in Some(Widths), c \in Some(Colours) : New("pb width brush", <<i, w, c>>, "pb", PB(WithWidth(ob[i].v, w).p, c))
PbPenBrushTo == \E i \in Some(Ids("pb")), j \in Some(Ids("pen")), c \in Some(Colours) : New("pb pen brush", <<i, j, c>>, "pb", PB(ob[j].v, c))
PbSame == \E i \in Some(Ids("pb")) : New("pb same", <<i>>, "pb", ob[i].v)
PbRefuse == \E i \in Some(Ids("pb")), j \in Some(Ids("pen")), w \in Some(Widths) : Ask("pb pen width", <<i, j, w>>, <<"ValueError">>)
PalWidthTo == \E i \in Some(Ids("pal")), w \in Some(Widths) : New("pal width", <<i, w>>, "pal", [k \in Kinds |-> WithWidth(ob[i].v[k], w)])
NoKind == \E i \in Some(Ids("pal") \cup Ids("cpal")) : Ask("no kind", <<i>>, <<"ValueError">>)

\* stroke width under a map that scales widths by x[1]
Stroke == \E i \in Some(Ids("pb")), x \in Some(Xforms) :
   LET p == ob[i].v.p IN
   Ask("stroke", <<i, x>>, IF p.c = None THEN <<>> ELSE IF p.w[1] > 0 THEN <<p.w>> ELSE <<RMul(RNeg(p.w), x[1])>>)
Equal == \E t \in Some({"pen", "pb"}) : \E i \in Some(Ids(t)), j \in Some(Ids(t)) : Ask("equal", <<i, j>>, <<ob[i].v = ob[j].v>>)

\* colours only: [o |-> outline, f |-> fill]
NewColours == \E o \in Some(Colours \cup {None}), f \in Some(Colours \cup {None}), n \in Some(BOOLEAN) : New("colours", <<o, f, n>>, "col", [o |-> o, f |-> f])
CDraft(c) == [k \in Kinds |-> [o |-> c, f |-> None]]
CProd(c, f, x) == [k \in Kinds |-> CASE k = "edge" -> [o |-> c, f |-> None]
                                     [] k = "filled" -> [o |-> None, f |-> c]
                                     [] k = "clear" -> [o |-> None, f |-> x]
                                     [] k = "edge_filled" -> [o |-> c, f |-> f]
                                     [] k = "edge_clear" -> [o |-> c, f |-> x]]
NewCPalette == \E draft \in Some(BOOLEAN), c \in Some(Colours), f \in Some(Colours), x \in Some(Colours), d \in Some(0..2) :
   New("cpalette", <<draft, c, f, x, d>>, "cpal", IF draft THEN CDraft(c) ELSE CProd(c, IF d >= 2 THEN Clear ELSE f, IF d >= 1 THEN Clear ELSE x))

Next == \/ On("pen") /\ (NewPen \/ NewThin \/ PenBrushTo \/ PenWidthTo \/ PenBothTo)
        \/ On("pb") /\ (NewPb \/ NewPbOf \/ PbPenTo \/ PbColourTo \/ PbWidthTo \/ PbBrushTo \/ PbWidthBrushTo \/ PbPenBrushTo \/ PbSame \/ PbRefuse \/ Stroke)
        \/ On("pal") /\ (NewPalette \/ NewCustom \/ Kind \/ PalWidthTo \/ NoKind)
        \/ On("col") /\ (NewColours \/ NewCPalette)
        \/ On("eq") /\ Equal
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------
Palettes == {i \in 1..Len(ob) : ob[i].t = "pal"}
\* width changes never add or remove a pen, and never touch a colour
Widen == hist = <<>> \/ LET s == hist[Len(hist)] IN
   s.op = "pal width" => LET a == ob[s.a[1]].v b == ob[Len(ob)].v IN \A k \in Kinds : a[k].b = b[k].b /\ a[k].p.c = b[k].p.c /\ (b[k].p.c # None => b[k].p.w = s.a[2])
\* widening twice is widening once
Idem == \A i \in Ids("pb") : \A w \in Widths, x \in Widths : WithWidth(WithWidth(ob[i].v, x), w) = WithWidth(ob[i].v, w)
Immutable == [][\A i \in 1..Len(ob) : ob'[i] = ob[i]]_vars
View == <<ob, Len(hist)>>
Emit(h) == CSVWrite("%1$s", <<ToJson(h)>>, "out.ndjson")
EmitStep == Emit(hist')
EmitFull == Len(hist) = Depth => Emit(hist)
==========================================================================
