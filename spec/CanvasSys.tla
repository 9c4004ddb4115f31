----------------------------- MODULE CanvasSys -----------------------------
(* Drawing contexts as canvases, and what is done to the images they give: cropping, finding what is visible, reducing,
   choosing a palette.  An image is [w, h, px] with px the colours of its pixels row by row (0: transparent).  A context is
   [w, h, bg, m, px, crop, sh]: background pixels, matrix, the pixels painted so far, its own crop box in pixels (or <<>>) and
   whether it has a shadow (then only what is painted over it is known: -1 elsewhere).
   Matrices are whole-number maps <<a, b, tx, c, d, ty>> that take axis-parallel boxes to such boxes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Sizes,       \* <<w, h>>
          Colours,     \* 1..n; Black and Blue are what lines and polygons have by default
          Black, Blue, Red, Green,
          Maps, Boxes, \* <<x1, y1, x2, y2>> in any order
          Factors, MaxCx, MaxIm, Lim, Depth, Sample, Ops

VARIABLES cx, im, hist
vars == <<cx, im, hist>>
Some(S) == IF Sample /\ S # {} THEN {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)} ELSE S
Running == Len(hist) < Depth
On(op) == Running /\ op \in Ops
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Cs == 1..Len(cx)
Is == 1..Len(im)
Init == cx = <<>> /\ im = <<>> /\ hist = <<>>
Step(op, a, r) == hist' = Append(hist, [op |-> op, a |-> a, r |-> r])

\* pixels
X(w, k) == (k - 1) % w
Y(w, k) == (k - 1) \div w
Plain(w, h, c) == [k \in 1..(w * h) |-> c]
\* boxes of pixels <<x1, y1, x2, y2>>, both ends included
In(b, w, k) == b[1] <= X(w, k) /\ X(w, k) <= b[3] /\ b[2] <= Y(w, k) /\ Y(w, k) <= b[4]
Edge(b, w, k) == In(b, w, k) /\ (X(w, k) \in {b[1], b[3]} \/ Y(w, k) \in {b[2], b[4]})
Paint(px, w, b, fill, outline) == [k \in DOMAIN px |-> IF outline # 0 /\ Edge(b, w, k) THEN outline ELSE IF fill # 0 /\ In(b, w, k) THEN fill ELSE px[k]]
Over(top, below) == [k \in DOMAIN top |-> IF top[k] # 0 THEN top[k] ELSE below[k]]
\* pixels of the box b, left and upper ends included, right and lower ones not
Crop(i, b) == LET w == b[3] - b[1] h == b[4] - b[2]
              IN [w |-> w, h |-> h,
                  px |-> [k \in 1..(w * h) |-> LET x == b[1] + X(w, k) y == b[2] + Y(w, k)
                                               IN IF x < 0 \/ y < 0 \/ x >= i.w \/ y >= i.h THEN 0 ELSE i.px[(y * i.w) + x + 1]]]

Pt(m, x, y) == <<(m[1] * x) + (m[2] * y) + m[3], (m[4] * x) + (m[5] * y) + m[6]>>
Sorted(b) == <<Min(b[1], b[3]), Min(b[2], b[4]), Max(b[1], b[3]), Max(b[2], b[4])>>
MapBox(m, b) == Sorted(Pt(m, b[1], b[2]) \o Pt(m, b[3], b[4]))
Fits(m) == \A i \in 1..6 : m[i] <= Lim /\ -m[i] <= Lim
Shown(c) == [w |-> c.w, h |-> c.h, px |-> IF c.sh THEN [k \in DOMAIN c.px |-> IF c.px[k] # 0 THEN c.px[k] ELSE -1] ELSE Over(c.px, c.bg)]
Known(i) == \A k \in DOMAIN i.px : i.px[k] >= 0

\* a new context over a plain background, over an image there is, or over the one it makes for itself
Own(m, cr) == IF cr = <<>> THEN <<>> ELSE MapBox(m, cr)
NewContext == \E s \in Some(Sizes), c \in Some({0} \cup Colours), m \in Some(Maps), cr \in Some(Boxes \cup {<<>>}), k \in Some(0..Len(im)) :
   /\ On("context") /\ Len(cx) < MaxCx
   /\ (IF k > 0 THEN Known(im[k]) ELSE TRUE)
   /\ LET n == IF k = 0 THEN [w |-> s[1], h |-> s[2], bg |-> Plain(s[1], s[2], c)] ELSE [w |-> im[k].w, h |-> im[k].h, bg |-> im[k].px]
      IN cx' = Append(cx, [w |-> n.w, h |-> n.h, bg |-> n.bg, m |-> m, px |-> Plain(n.w, n.h, 0), crop |-> Own(m, cr), sh |-> FALSE])
   /\ Step("context", <<s, c, m, cr, k>>, 0) /\ UNCHANGED im

Change(i, op, a, c) == cx' = [cx EXCEPT ![i] = c] /\ Step(op, a, Shown(c)) /\ UNCHANGED im
Proper == {b \in Boxes : b[1] # b[3] /\ b[2] # b[4]}
\* fill and outline 0: none
Polygon == \E i \in Some(Cs), b \in Some(Proper), f \in Some({0} \cup Colours), o \in Some({0} \cup Colours), form \in Some({"pairs", "points", "mixed", "default"}) :
   /\ On("polygon")
   /\ LET g == IF form = "default" THEN <<Blue, Black>> ELSE <<f, o>>
      IN Change(i, "polygon", <<i, b, g[1], g[2], form>>, [cx[i] EXCEPT !.px = Paint(@, cx[i].w, MapBox(cx[i].m, b), g[1], g[2])])
Line == \E i \in Some(Cs), b \in Some(Boxes), c \in Some(Colours), d \in Some({"x", "y"}), default \in Some(BOOLEAN) :
   /\ On("line")
   /\ LET e == IF d = "x" THEN <<b[1], b[2], b[3], b[2]>> ELSE <<b[1], b[2], b[1], b[4]>>
          k == IF default THEN Black ELSE c
      IN Change(i, "line", <<i, e, k, default>>, [cx[i] EXCEPT !.px = Paint(@, cx[i].w, MapBox(cx[i].m, e), k, 0)])
\* axes, and three squares
RECURSIVE Lines(_, _, _)
Lines(px, c, ls) == IF ls = <<>> THEN px ELSE Lines(Paint(px, c.w, MapBox(c.m, ls[1][1]), ls[1][2], 0), c, Tail(ls))
Square(r, c) == <<<<<<-r, r, r, r>>, c>>, <<<<r, -r, r, r>>, c>>, <<<<r, -r, -r, -r>>, c>>, <<<<-r, -r, -r, r>>, c>>>>
GridLines == <<<<<<1000, 0, -1000, 0>>, Red>>, <<<<0, 1000, 0, -1000>>, Red>>>> \o Square(100, Black) \o Square(50, Green) \o Square(10, Blue)
Grid == \E i \in Some(Cs) : On("grid") /\ Change(i, "grid", <<i>>, [cx[i] EXCEPT !.px = Lines(@, cx[i], GridLines)])
\* a shadow of something goes below whatever is painted, before or after
Shadow == \E i \in Some(Cs), b \in Some(Boxes) : On("shadow") /\ b[1] # b[3] /\ b[2] # b[4] /\ Change(i, "shadow", <<i, b>>, [cx[i] EXCEPT !.sh = TRUE])

\* the map of a context: n first, then what there is; or n instead of it
After(m, n) == <<m[1]*n[1] + m[2]*n[4], m[1]*n[2] + m[2]*n[5], m[1]*n[3] + m[2]*n[6] + m[3],
                 m[4]*n[1] + m[5]*n[4], m[4]*n[2] + m[5]*n[5], m[4]*n[3] + m[5]*n[6] + m[6]>>
Compose == \E i \in Some(Cs), n \in Some(Maps) : On("map") /\ Fits(After(cx[i].m, n)) /\ Change(i, "compose", <<i, n>>, [cx[i] EXCEPT !.m = After(@, n)])
SetMatrix == \E i \in Some(Cs), n \in Some(Maps \cup {<<>>}) : On("map") /\ Change(i, "set_matrix", <<i, n>>, [cx[i] EXCEPT !.m = IF n = <<>> THEN @ ELSE n])
Where == \E i \in Some(Cs), b \in Some(Boxes) :
   On("where") /\ UNCHANGED <<cx, im>> /\ Step("where", <<i, b>>, [pt |-> Pt(cx[i].m, b[1], b[2]), box |-> MapBox(cx[i].m, b), wide |-> b[3] * (Max(cx[i].m[1], -cx[i].m[1]) + Max(cx[i].m[2], -cx[i].m[2]))])

\* images of a context: whole, cropped to its own box, or cropped to a box given
Wide(b) == IF b = <<>> THEN TRUE ELSE b[3] > b[1] /\ b[4] > b[2] /\ b[3] - b[1] <= 40 /\ b[4] - b[2] <= 40
NewImage(op, a, i) == Len(im) < MaxIm /\ im' = Append(im, i) /\ Step(op, a, i) /\ UNCHANGED cx
Whole == \E i \in Some(Cs) : On("image") /\ NewImage("whole", <<i>>, Shown(cx[i]))
Image == \E i \in Some(Cs) : On("image") /\ Wide(cx[i].crop)
   /\ NewImage("image", <<i>>, IF cx[i].crop = <<>> THEN Shown(cx[i]) ELSE Crop(Shown(cx[i]), cx[i].crop))
CropTo == \E i \in Some(Cs), b \in Some(Boxes) : On("image") /\ Wide(MapBox(cx[i].m, b)) /\ NewImage("crop", <<i, b>>, Crop(Shown(cx[i]), MapBox(cx[i].m, b)))

\* the smallest box that holds what is visible in any of the images
Visible(i) == {k \in DOMAIN i.px : i.px[k] # 0}
BoxOf(i) == IF Visible(i) = {} THEN <<>>
            ELSE LET xs == {X(i.w, k) : k \in Visible(i)} ys == {Y(i.w, k) : k \in Visible(i)}
                     lo(S) == CHOOSE v \in S : \A u \in S : v <= u
                     hi(S) == CHOOSE v \in S : \A u \in S : u <= v
                 IN <<lo(xs), lo(ys), hi(xs) + 1, hi(ys) + 1>>
Join(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE <<Min(a[1], b[1]), Min(a[2], b[2]), Max(a[3], b[3]), Max(a[4], b[4])>>
RECURSIVE Union(_)
Union(s) == IF s = <<>> THEN <<>> ELSE Join(BoxOf(im[s[1]]), Union(Tail(s)))
Seqs == {<<i>> : i \in Is} \cup (Is \X Is) \cup (Is \X Is \X Is)
Pick == IF Sample THEN (IF im = <<>> THEN {} ELSE {[k \in 1..RandomElement(1..3) |-> RandomElement(IF Len(hist) < 0 THEN {} ELSE Is)]}) ELSE Seqs
AllKnown(s) == \A k \in DOMAIN s : Known(im[s[k]]) /\ im[s[k]].w > 0
MaxBox == \E s \in Pick : On("box") /\ AllKnown(s) /\ UNCHANGED <<cx, im>> /\ Step("max_bbox", <<s>>, Union(s))

\* reduced: a pixel whose surroundings are all of one colour has it, and the others are not known (-1)
Ceil(a, b) == -((-a) \div b)
Near(w, n, x) == Max(0, (((2 * x + 1) * w) - 4 * w) \div (2 * n))..Min(w - 1, Ceil(((2 * x + 1) * w) + 4 * w, 2 * n))
Reduce(i, f) ==
  IF f = 1 THEN i ELSE
  LET w == i.w \div f h == i.h \div f
  IN [w |-> w, h |-> h,
      px |-> [k \in 1..(w * h) |->
               LET S == {i.px[(y * i.w) + x + 1] : x \in Near(i.w, w, X(w, k)), y \in Near(i.h, h, Y(w, k))}
               IN IF Cardinality(S) = 1 THEN CHOOSE c \in S : TRUE ELSE -1]]
Scaled == \E s \in Pick, f \in Some(Factors), b \in Some(Boxes \cup {<<>>}) :
   /\ On("scaled") /\ AllKnown(s) /\ \A k \in DOMAIN s : im[s[k]].w = im[s[1]].w /\ im[s[k]].h = im[s[1]].h
   /\ LET c == IF b = <<>> THEN <<>> ELSE Sorted(b)
          js == [k \in DOMAIN s |-> IF b = <<>> THEN im[s[k]] ELSE Crop(im[s[k]], c)]
      IN /\ Wide(c) /\ js[1].w >= f /\ js[1].h >= f
         /\ UNCHANGED <<cx, im>> /\ Step("scaled", <<s, f, c>>, [k \in DOMAIN s |-> Reduce(js[k], f)])

\* a palette: how often each colour is there; all of it becomes the palette of the converted images
Count(s, c) == Cardinality(UNION {{<<k, p>> : p \in {p \in DOMAIN im[s[k]].px : im[s[k]].px[p] = c}} : k \in DOMAIN s})
Palette == \E s \in Pick, many \in Some(BOOLEAN) :
   /\ On("palette") /\ AllKnown(s)
   /\ UNCHANGED <<cx, im>> /\ Step("palette", <<s, many>>, {<<c, Count(s, c)>> : c \in {c \in {0} \cup Colours : Count(s, c) > 0}})
Save == \E s \in Pick, crop \in Some(BOOLEAN) : /\ On("save") /\ AllKnown(s) /\ UNCHANGED <<cx, im>> /\ Step("save", <<s, crop>>, 0)
   /\ \A k \in DOMAIN s : im[s[k]].w >= 2 /\ im[s[k]].h >= 2 /\ im[s[k]].w = im[s[1]].w /\ im[s[k]].h = im[s[1]].h

Paints == Polygon \/ Line \/ Grid \/ Shadow
Next == NewContext \/ Paints \/ Compose \/ SetMatrix \/ Where \/ Whole \/ Image \/ CropTo \/ MaxBox \/ Scaled \/ Palette \/ Save
Spec == Init /\ [][Next]_vars
\* (random walks choose the operation first, and take a cheap one where it cannot be done)
Do(o) == CASE o = 1 -> Polygon [] o = 2 -> Line [] o = 3 -> Grid [] o = 4 -> Shadow [] o = 5 -> SetMatrix [] o = 6 -> Compose [] o = 7 -> Whole
           [] o = 8 -> Image [] o = 9 -> CropTo [] o = 10 -> MaxBox [] o = 11 -> Scaled [] o = 12 -> Palette [] o = 13 -> Save [] o = 14 -> NewContext [] OTHER -> Polygon
Walk == Init /\ [][IF cx = <<>> THEN NewContext ELSE \E o \in {RandomElement(IF Len(hist) < 0 THEN {} ELSE 1..17)} : Do(o) \/ (IF o % 3 = 0 THEN Polygon ELSE IF o % 3 = 1 THEN Where ELSE Line)]_vars
------------------------------------------------------------------------
\* cropping an image to the box of what is visible loses nothing, and what is left fills its frame
Tight == \A k \in Is : Known(im[k]) /\ BoxOf(im[k]) # <<>> => LET b == BoxOf(im[k]) IN LET c == Crop(im[k], b) IN BoxOf(c) = <<0, 0, c.w, c.h>> /\ Cardinality(Visible(c)) = Cardinality(Visible(im[k]))
\* every pixel counts once
Counts == \A k \in Is : Known(im[k]) => LET n(c) == Count(<<k>>, c)
             RECURSIVE Sum(_)
             Sum(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN n(c) + Sum(S \ {c})
          IN Sum({0} \cup Colours) = im[k].w * im[k].h
\* reducing a plain image gives a plain image
PlainStays == \A k \in Is : im[k].w >= 2 /\ im[k].h >= 2 /\ Known(im[k]) /\ Cardinality({im[k].px[p] : p \in DOMAIN im[k].px}) = 1 => \A p \in DOMAIN Reduce(im[k], 2).px : Reduce(im[k], 2).px[p] = im[k].px[1]
\* images, backgrounds and crop boxes never change
Stay == [][/\ \A k \in Is : im'[k] = im[k]
           /\ \A i \in Cs : cx'[i].bg = cx[i].bg /\ cx'[i].crop = cx[i].crop
           /\ Len(cx') = Len(cx) => Cardinality({i \in Cs : cx'[i] # cx[i]}) <= 1]_vars
View == <<cx, im, Len(hist)>>
Emit(h) == CSVWrite("%1$s", <<ToJson(h)>>, "out.ndjson")
EmitStep == Emit(hist')
EmitFull == Len(hist) = Depth => Emit(hist)
==========================================================================
