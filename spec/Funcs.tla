------------------------------- MODULE Funcs -------------------------------
(* Time-shaping functions as terms.  A term table is a sequence of [k, a, s]: kind, parameters, earlier terms it is made of.
   Times and values are sequences of rationals: one (a number), two (an x/y pair) or none (hidden). *)
EXTENDS Rat, FiniteSets

Num(r) == <<r>>
\* <<cos, sin>> of n times 30 degrees plus the angle of the rational unit vector p; <<0, 0>> marks an irrational one
TrigTab == << <<<<1, 1>>, <<0, 1>>>>, <<<<0, 0>>, <<1, 2>>>>, <<<<1, 2>>, <<0, 0>>>>, <<<<0, 1>>, <<1, 1>>>>, <<<<-1, 2>>, <<0, 0>>>>, <<<<0, 0>>, <<1, 2>>>>,
              <<<<-1, 1>>, <<0, 1>>>>, <<<<0, 0>>, <<-1, 2>>>>, <<<<-1, 2>>, <<0, 0>>>>, <<<<0, 1>>, <<-1, 1>>>>, <<<<1, 2>>, <<0, 0>>>>, <<<<0, 0>>, <<-1, 2>>>> >>
Irr(r) == r[2] = 0
Trig(n, p) ==
  LET e == TrigTab[(n % 12) + 1] IN
  IF p = <<1, 0, 1>> THEN e
  ELSE IF n % 3 # 0 THEN <<<<0, 0>>, <<0, 0>>>>
  ELSE LET c == e[1][1]  s == e[2][1] IN <<R(c * p[1] - s * p[2], p[3]), R(s * p[1] + c * p[2], p[3])>>
\* angle of frequency f at time t, in units of 30 degrees: [ok, n]
Turn(f, t) == LET r == RMul(<<12, 1>>, RMul(f, t)) IN [ok |-> r[2] = 1, n |-> r[1]]

\* piecewise linear through pts, constant outside
Interp(pts, t) ==
  LET n == Len(pts) IN
  IF RLe(t, pts[1][1]) THEN pts[1][2]
  ELSE IF RLe(pts[n][1], t) THEN pts[n][2]
  ELSE LET i == CHOOSE i \in 1..n - 1 : RLe(pts[i][1], t) /\ RLt(t, pts[i + 1][1])
           u == RDiv(RSub(t, pts[i][1]), RSub(pts[i + 1][1], pts[i][1]))
       IN RAdd(pts[i][2], RMul(u, RSub(pts[i + 1][2], pts[i][2])))
Curve(f) == CASE f.k = "up" -> << <<<<0, 1>>, <<0, 1>>>>, <<f.a[1], <<0, 1>>>>, <<f.a[2], <<1, 1>>>>, <<<<1, 1>>, <<1, 1>>>> >>
              [] f.k = "down" -> << <<<<0, 1>>, <<1, 1>>>>, <<f.a[1], <<1, 1>>>>, <<f.a[2], <<0, 1>>>>, <<<<1, 1>>, <<0, 1>>>> >>
              [] OTHER -> f.a

None == [ok |-> TRUE, v |-> <<>>]
Bad == [ok |-> FALSE, v |-> <<>>]
Good(v) == [ok |-> TRUE, v |-> v]
\* trigonometric functions: a = <<frequency, n (offset in 30 degree units), p (further offset as a unit vector), scale, shift>>
TrigAt(a, t) == LET u == Turn(a[1], t)  e == Trig(u.n + a[2], a[3]) IN
                IF ~u.ok THEN <<<<0, 0>>, <<0, 0>>>> ELSE [i \in 1..2 |-> IF Irr(e[i]) THEN e[i] ELSE RAdd(RMul(e[i], a[4]), a[5])]

RECURSIVE Eval(_, _, _)
Eval(fs, i, t) ==
  LET f == fs[i] IN
  IF t = <<>> THEN Bad
  ELSE CASE f.k = "id" -> Good(t)
    [] f.k = "idxy" -> Good(IF Len(t) = 1 THEN <<t[1], t[1]>> ELSE t)
    [] f.k \in {"up", "down", "interp"} -> Good([j \in 1..Len(t) |-> Interp(Curve(f), t[j])])
    [] f.k \in {"sin", "cos", "sincos"} ->
         IF Len(t) # 1 THEN Bad
         ELSE LET e == TrigAt(f.a, t[1])
                  v == CASE f.k = "cos" -> <<e[1]>> [] f.k = "sin" -> <<e[2]>> [] OTHER -> <<e[2], e[1]>>
              IN IF \E j \in 1..Len(v) : Irr(v[j]) THEN Bad ELSE Good(v)
    [] f.k = "xy" -> LET x == Eval(fs, f.s[1], t)  y == Eval(fs, f.s[2], t) IN
                     IF Len(t) # 1 \/ ~x.ok \/ ~y.ok \/ Len(x.v) # 1 \/ Len(y.v) # 1 THEN Bad ELSE Good(<<x.v[1], y.v[1]>>)
    [] f.k = "hide" -> LET x == Eval(fs, f.s[1], t) IN
                       IF ~x.ok \/ Len(x.v) # 1 THEN Bad ELSE IF RLt(x.v[1], f.a) THEN None ELSE x
    [] OTHER -> LET x == Eval(fs, f.s[2], t) IN IF ~x.ok THEN Bad ELSE Eval(fs, f.s[1], x.v)   \* comp: the first after the second
\* a value exactly at the threshold of a hiding function, reached by inexact arithmetic, may fall either way
Exact(f, t) == f.k = "id" \/ (f.k \in {"up", "down", "interp"} /\ Len(t) = 1 /\
                                LET c == Curve(f) IN RLe(t[1], c[1][1]) \/ RLe(c[Len(c)][1], t[1]) \/ \E j \in 1..Len(c) : REq(t[1], c[j][1]) /\ t[1][2] \in {1, 2, 4, 8})
\* depth of nesting: deep compositions of steep functions amplify rounding beyond any tolerance
RECURSIVE Level(_, _)
Level(fs, i) == LET f == fs[i] IN
  CASE f.k = "xy" -> LET x == Level(fs, f.s[1])  y == Level(fs, f.s[2]) IN IF x < y THEN y ELSE x
    [] f.k = "hide" -> Level(fs, f.s[1])
    [] f.k = "comp" -> Level(fs, f.s[1]) + Level(fs, f.s[2])
    [] OTHER -> 1
RECURSIVE TieAt(_, _, _, _)
TieAt(fs, i, t, ex) ==
  LET f == fs[i] IN
  IF t = <<>> THEN FALSE
  ELSE CASE f.k = "hide" -> TieAt(fs, f.s[1], t, ex) \/ LET x == Eval(fs, f.s[1], t) IN x.ok /\ Len(x.v) = 1 /\ ~(ex /\ Exact(fs[f.s[1]], t)) /\ REq(x.v[1], f.a)
    [] f.k = "xy" -> TieAt(fs, f.s[1], t, ex) \/ TieAt(fs, f.s[2], t, ex)
    [] f.k = "comp" -> TieAt(fs, f.s[2], t, ex) \/ LET x == Eval(fs, f.s[2], t) IN x.ok /\ TieAt(fs, f.s[1], x.v, FALSE)
    [] OTHER -> FALSE
Tie(fs, i, t) == TieAt(fs, i, t, TRUE)
ValFits(v, lim) == \A j \in 1..Len(v) : FitsSeq(v[j], lim)
==========================================================================
