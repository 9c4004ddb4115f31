------------------------------- MODULE Aff -------------------------------
(* Affine maps of the plane with rational coefficients: <<a, b, c, d, e, f, q>> is
   (x, y) -> ((a x + b y + c)/q, (d x + e y + f)/q), always in lowest terms with q > 0. *)
EXTENDS Rat

Ident == <<1, 0, 0, 0, 1, 0, 1>>
ANorm(m) == NormSeq(m)

\* Mul(m, n): apply n first, then m
Mul(m, n) == ANorm(<<
   m[1]*n[1] + m[2]*n[4], m[1]*n[2] + m[2]*n[5], m[1]*n[3] + m[2]*n[6] + m[3]*n[7],
   m[4]*n[1] + m[5]*n[4], m[4]*n[2] + m[5]*n[5], m[4]*n[3] + m[5]*n[6] + m[6]*n[7],
   m[7]*n[7] >>)

Det(m) == m[1]*m[5] - m[2]*m[4]

MTranslate(dx, dy) == <<1, 0, dx, 0, 1, dy, 1>>
\* translation by a rational (n/d)
MTranslateR(rx, ry) == ANorm(<<rx[2]*ry[2], 0, rx[1]*ry[2], 0, rx[2]*ry[2], ry[1]*rx[2], rx[2]*ry[2]>>)
\* scale factors are rationals
MScale(rx, ry) == ANorm(<<rx[1]*ry[2], 0, 0, 0, ry[1]*rx[2], 0, rx[2]*ry[2]>>)
\* angles are rational points <<c, s, q>> of the unit circle: cos = c/q, sin = s/q
MRotCCW(t) == ANorm(<<t[1], -t[2], 0, t[2], t[1], 0, t[3]>>)
MRotCW(t) == ANorm(<<t[1], t[2], 0, -t[2], t[1], 0, t[3]>>)
MRotAbout(t, cx, cy) == Mul(MTranslate(cx, cy), Mul(MRotCW(t), MTranslate(-cx, -cy)))
\* boxes are <<xl, yl, xh, yh>> with xl < xh, yl < yh
MScaleBox(s, t) ==
  LET sw == s[3]-s[1]  sh == s[4]-s[2]  tw == t[3]-t[1]  th == t[4]-t[2]
  IN Mul(MTranslate(t[1], t[2]), Mul(MScale(<<tw, sw>>, <<th, sh>>), MTranslate(-s[1], -s[2])))
\* keeping the aspect ratio: the largest uniform scale that fits, centred in the target
MFitBox(s, t) ==
  LET sw == s[3]-s[1]  sh == s[4]-s[2]  tw == t[3]-t[1]  th == t[4]-t[2]
      k == RMin(<<tw, sw>>, <<th, sh>>)
      cx == R(t[1]+t[3], 2)  cy == R(t[2]+t[4], 2)
      sx == R(-(s[1]+s[3]), 2)  sy == R(-(s[2]+s[4]), 2)
  IN Mul(MTranslateR(cx, cy), Mul(MScale(k, k), MTranslateR(sx, sy)))
MCanvas(h, zoom, zx, zy) ==
  Mul(MTranslate(0, h), Mul(MScale(<<1, 1>>, <<-1, 1>>), Mul(MTranslate(zx, zy), MScale(zoom, zoom))))

\* Image of rational point <<x, y, q>>
Img(m, p) == NormSeq(<<m[1]*p[1] + m[2]*p[2] + m[3]*p[3], m[4]*p[1] + m[5]*p[2] + m[6]*p[3], m[7]*p[3]>>)
\* Image of a rational vector
ImgV(m, p) == NormSeq(<<m[1]*p[1] + m[2]*p[2], m[4]*p[1] + m[5]*p[2], m[7]*p[3]>>)
AFits(m, lim) == FitsSeq(m, lim)
==========================================================================
