"""C01, C02, C03: TransformSys.tla against x7.geom.transform.Transform"""
import math
from fractions import Fraction as F

from .core import ensure, near, near_xy, raises, Mismatch
from .tlc import cfg

# ------------------------------------------------------------------------------------------------- model configs
MC = dict(
    N=2, Trans='{<<3, -2>>}', Scales='{<<2, 1, -1, 1>>}', Rots='{<<0, 1, 1>>}',
    Centers='{<<1, 2>>}', BoxPairs='{<<<<0, 0, 2, 1>>, <<1, 1, 4, 4>>>>}', Canvases='{<<10, 8, 2, 1, 1, 3>>}',
    Tuples='{<<1, 2, 3, 0, 1, -1>>}', Depth=4, MaxStack=3, MaxScopes=2, Lim=3000, Ghost='TRUE', EmitAll='FALSE')

SIM = dict(
    N=3,
    Trans='{<<3, -2>>, <<-1, 0>>, <<0, 5>>, <<7, 7>>, <<0, 0>>, <<-13, 4>>}',
    Scales='{<<2, 1, -1, 1>>, <<1, 2, 1, 2>>, <<3, 1, 3, 1>>, <<1, 1, 2, 3>>, <<-1, 1, 1, 1>>, <<-2, 1, -2, 1>>, <<1, 3, 3, 1>>, <<1, 1, 1, 1>>}',
    Rots='{<<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<1, 0, 1>>, <<3, 4, 5>>, <<4, -3, 5>>, <<-3, 4, 5>>, <<5, 12, 13>>}',
    Centers='{<<1, 2>>, <<0, 0>>, <<-4, 3>>, <<6, 0>>}',
    BoxPairs='{<<<<0, 0, 2, 1>>, <<1, 1, 4, 4>>>>, <<<<-3, 2, 1, 8>>, <<0, -5, 2, -4>>>>, <<<<0, 0, 4, 4>>, <<-2, 0, 6, 2>>>>, '
             '<<<<1, 1, 3, 2>>, <<1, 1, 3, 2>>>>, <<<<5, -6, 6, -2>>, <<-1, -1, 5, 1>>>>}',
    Canvases='{<<10, 8, 2, 1, 1, 3>>, <<5, 20, 1, 2, 0, 0>>, <<7, 7, 1, 1, -2, 5>>}',
    Tuples='{<<1, 2, 3, 0, 1, -1>>, <<2, 0, 0, 0, 3, 0>>, <<0, -1, 4, 1, 0, 2>>, <<1, 1, 0, -1, 1, 5>>, <<1, 0, 0, 0, 1, 0>>, '
           '<<0, 2, 0, 3, 0, 0>>, <<-1, 0, 1, 0, -1, 1>>, <<3, -1, 2, 2, 1, -7>>}',
    Depth=24, MaxStack=5, MaxScopes=4, Lim=9000, Ghost='FALSE', EmitAll='FALSE')

PROBES = [(0, 0), (1, 0), (0, 1), (2, -3), (-5, 7)]


class Interp:
    """Runs one behaviour of TransformSys on real transforms"""

    def __init__(self, beh, variant):
        from x7.geom.transform import Transform, Matrix, EmptyStackError
        from x7.geom.geom import Point, BBox
        self.Transform, self.Matrix, self.EmptyStackError = Transform, Matrix, EmptyStackError
        self.Point, self.BBox = Point, BBox
        self.beh = beh
        self.pos = 0
        self.done = False
        self.unit = variant.get('unit', 1)
        self.eager = variant.get('eager', True)
        self.wind = variant.get('wind', 0)
        self.inv = variant.get('inv', True)
        self.fwd = variant.get('fwd', True)
        self.ways = variant.get('ways', 0)
        n = len(beh[0]['m'])
        self.t = [Transform() for _ in range(n)]

    # -- running ------------------------------------------------------------------------------------------------
    def run(self):
        self.block(None)
        return len(self.beh)

    def block(self, owner):
        """Run steps up to the end of the behaviour or of the current with-block; returns the exit step, if any"""
        while self.pos < len(self.beh):
            s = self.beh[self.pos]
            self.pos += 1
            try:
                if s['op'] == 'enter':
                    self.with_block(s)
                    continue
                if s['op'] == 'exit':
                    return s
                self.step(s)
                self.after(s)
            except Mismatch as e:
                raise Mismatch('step %d %s: %s' % (self.beh.index(s) + 1, {k: s[k] for k in ('op', 'i', 'j', 'a')}, e))
        if not self.done:
            self.done = True        # blocks still open here are closed unobserved
            self.observe_all(self.beh[-1])
        return None

    class Boom(Exception):
        pass

    def with_block(self, s):
        t = self.t[s['i'] - 1]
        boom = self.Boom('x')
        end = None
        try:
            with t.push() as inner:
                ensure(inner is t, 'with t.push() as x: x is not t')
                self.after(s)
                end = self.block(s['i'])
                if end is not None and end['a'][0]:
                    raise boom
        except self.Boom as e:
            ensure(e is boom and end is not None and end['a'][0], 'a different exception came out of the block')
        else:
            ensure(end is None or not end['a'][0], 'the exception raised in the block was swallowed')
        if end is not None:
            self.after(end)

    def deg(self, a):
        d = math.degrees(math.atan2(a[1], a[0]))
        return d + 360 * self.wind

    def step(self, s):
        t = self.t[s['i'] - 1]
        other = self.t[s['j'] - 1] if s['j'] else None
        a, u, op = s['a'], self.unit, s['op']
        r = t
        if op == 'translate':
            r = t.translate(a[0] * u, a[1] * u)
        elif op == 'scale':
            r = t.scale(a[0] / a[1], a[2] / a[3])
        elif op == 'rotate':
            r = t.rotate(self.deg(a))
        elif op == 'rotate_ccw':
            r = t.rotate_ccw(self.deg(a))
        elif op == 'rotate_about':
            r = t.rotate_about(self.deg(a), self.Point(a[3] * u, a[4] * u))
        elif op in ('scale_bbox', 'fit_bbox'):
            s0, s1 = self.BBox(*[v * u for v in a[:4]]), self.BBox(*[v * u for v in a[4:]])
            k0, k1 = s0.as_tuple(), s1.as_tuple()
            if op == 'fit_bbox':
                r = t.scale_bbox(s0, s1, keep_aspect=True)
            elif self.ways % 2:
                r = t.scale_bbox(s0, s1, False)
            else:
                r = t.scale_bbox(s0, s1)
            ensure(s0.as_tuple() == k0 and s1.as_tuple() == k1, 'scale_bbox changed its boxes')
        elif op in ('compose', 'compose_outer'):
            before = other.as_6tuple()
            arg = other
            if self.ways % 2 and other is not t:
                m = other.as_6tuple()
                arg = self.Matrix((m[:3], m[3:], (0, 0, 1)))
            r = getattr(t, op)(arg)
            if other is not t:
                ensure(other.as_6tuple() == before, op, 'changed its argument')
        elif op == 'set_matrix':
            before = other.as_6tuple()
            t.set_matrix(other)
            ensure(other.as_6tuple() == before and t == other, 'set_matrix: not equal')
        elif op == 'reset':
            r = t.reset()
        elif op == 'copy':
            c = other.copy()
            ensure(c is not other and c == other and isinstance(c, self.Transform), 'copy is not an equal new transform')
            self.t[s['i'] - 1] = c
        elif op == 'canvas_fit':
            size, zoom = (a[0] * u, a[1] * u), a[2] / a[3]
            if a[4] == a[5] == 0 and self.ways % 2:
                self.t[s['i'] - 1] = self.Transform.canvas_fit(size, zoom)
            else:
                self.t[s['i'] - 1] = self.Transform.canvas_fit(size, zoom, (a[4] * u, a[5] * u))
        elif op == 'build':
            m = tuple(v * u if k in (2, 5) else v for k, v in enumerate(a))
            self.t[s['i'] - 1] = self.Transform.identity() if m == (1, 0, 0, 0, 1, 0) and self.ways % 2 else self.Transform(m)
        elif op == 'push':
            r = t.push()
        elif op == 'pop':
            t.pop()
        elif op == 'pop_empty':
            raises(self.EmptyStackError, t.pop)
        elif op == 'with_empty':
            def enter():
                with t:
                    raise Mismatch('a with statement without push() ran its body')
            raises(self.EmptyStackError, enter)
        elif op == 'read':
            self.observe_inverse(s['i'] - 1, s['m'][s['i'] - 1])
        else:
            raise RuntimeError(op)
        ensure(r is t, op, 'does not return the transform')

    def after(self, s):
        if self.eager:
            self.observe_all(s)

    # -- observations -------------------------------------------------------------------------------------------
    def expected(self, m):
        u = F(self.unit)
        q = m[6]
        return [F(m[0], q), F(m[1], q), F(m[2], q) * u, F(m[3], q), F(m[4], q), F(m[5], q) * u]

    def observe_all(self, s):
        for k, m in enumerate(s['m']):
            if self.fwd:
                self.observe_forward(k, m)
            if self.inv:
                self.observe_inverse(k, m)

    def observe_forward(self, k, m):
        t, u = self.t[k], self.unit
        e = [float(x) for x in self.expected(m)]
        size = max(abs(e[0]), abs(e[1]), abs(e[3]), abs(e[4]), 1.0)
        # intermediate values may have been larger than the result
        off = max(abs(e[2]), abs(e[5]), 10000 * u)
        got = t.as_6tuple()
        ensure(len(got) == 6, 'as_6tuple', got)
        for i, (g, w) in enumerate(zip(got, e)):
            ensure(near(g, w, off if i in (2, 5) else max(size, 1000)), 'transform %d: 6-tuple is %s, specified %s' % (k + 1, got, e))
        pts = [(x * u, y * u) for x, y in PROBES]
        want = [(e[0] * x + e[1] * y + e[2], e[3] * x + e[4] * y + e[5]) for x, y in pts]
        sc = off + 10 * u * size

        def same(g, w, what):
            ensure(near_xy(g, w, sc), 'transform %d: %s maps to %s, specified %s' % (k + 1, what, tuple(g), w))
        for (x, y), w in zip(pts, want):
            same(t.transform(x, y), w, 'transform(%s, %s)' % (x, y))
            p = self.Point(x, y)
            r = t.transform_pt(p)
            ensure(type(r) is self.Point, 'transform_pt gives', type(r))
            same(r, w, 'transform_pt(%s)' % p)
            r = t.transform_pt(p, as_pt=False)
            ensure(type(r) is tuple, 'transform_pt(as_pt=False) gives', type(r))
            same(r, w, 'transform_pt(%s, False)' % p)
            ensure(p == self.Point(x, y), 'transform_pt changed its point')
        for sub in (slice(0, 5), slice(1, 2)):
            ps = [self.Point(x, y) for x, y in pts[sub]]
            r = t.transform_pts(ps)
            ensure(isinstance(r, list) and len(r) == len(ps) and all(type(p) is self.Point for p in r), 'transform_pts of points', r)
            for p, w in zip(r, want[sub]):
                same(p, w, 'transform_pts(points)')
            ensure([p.xy() for p in ps] == pts[sub], 'transform_pts changed its points')
            r = t.transform_pts(list(pts[sub]))
            ensure(isinstance(r, list) and len(r) == len(ps) and all(type(p) is tuple for p in r), 'transform_pts of tuples', r)
            for p, w in zip(r, want[sub]):
                same(p, w, 'transform_pts(tuples)')
            for src in (ps, list(pts[sub])):
                r = t.transform_pts(src, flatten=True)
                ensure(len(r) == 2 * len(ps), 'flatten gives', len(r), 'values')
                for i, w in enumerate(want[sub]):
                    same((r[2 * i], r[2 * i + 1]), w, 'transform_pts(flatten)')
        sx, sy = t.scale_vals()
        wx, wy = math.hypot(e[0], e[3]), math.hypot(e[1], e[4])
        ensure(near(sx, wx, max(size, 1)) and near(sy, wy, max(size, 1)), 'scale_vals', (sx, sy), 'specified', (wx, wy))
        for w in (0, 1, 2.5, -3):
            ensure(near(t.transform_width(w), w * (wx + wy) / 2, max(size, 1) * abs(w)), 'transform_width', w, t.transform_width(w))
        first, rest = t.simplify()
        both = first.copy().compose(rest)
        for i, (g, w) in enumerate(zip(both.as_6tuple(), e)):
            ensure(near(g, w, off if i in (2, 5) else max(size, 1000)), 'simplify factors recompose to %s, specified %s' % (both.as_6tuple(), e))
        r6 = rest.as_6tuple()
        ensure(r6[2] == 0 and r6[5] == 0, 'second simplify factor translates:', r6)
        f6 = first.as_6tuple()
        ensure(abs(f6[1]) < 1e-9 * max(size, 1) and abs(f6[3]) < 1e-9 * max(size, 1) or abs(f6[0]) < 1e-9 * max(size, 1) and abs(f6[4]) < 1e-9 * max(size, 1),
               'first simplify factor is not simple:', f6)
        if all(float(x) == int(x) for x in got[:2] + got[3:5]):
            simple = (e[1] == 0 and e[3] == 0) or (e[0] == 0 and e[4] == 0)
            ensure(bool(t.is_simple()) == simple, 'is_simple is', t.is_simple(), 'for', got)
        ensure(t.as_6tuple() == got, 'observing changed the transform')

    def observe_inverse(self, k, m):
        t, u = self.t[k], self.unit
        e = [float(x) for x in self.expected(m)]
        det = e[0] * e[4] - e[1] * e[3]
        big = max(abs(x) for x in e) + 1.0 + 10000 * min(u, 1)
        inv = [e[4] / det, -e[1] / det, (e[1] * e[5] - e[4] * e[2]) / det, -e[3] / det, e[0] / det, (e[3] * e[2] - e[0] * e[5]) / det]
        cond = big * (max(abs(x) for x in inv) + 1.0)
        rel = 1e-13 * cond * 100 + 1e-9
        if rel > 1e-4:
            return
        pts = [(x * u, y * u) for x, y in PROBES]
        img = [(e[0] * x + e[1] * y + e[2], e[3] * x + e[4] * y + e[5]) for x, y in pts]
        sc = max(10 * u, u)

        def same(g, w, what):
            ensure(near_xy(g, w, sc, rel), 'transform %d: %s gives %s, specified %s' % (k + 1, what, tuple(g), w))
        for p, q in zip(pts, img):
            same(t.untransform(*q), p, 'untransform%s' % (q,))
            r = t.untransform_pt(self.Point(*q))
            ensure(type(r) is self.Point, 'untransform_pt gives', type(r))
            same(r, p, 'untransform_pt')
        same(t.untransform_pt(img[1]), pts[1], 'untransform_pt of a tuple')
        for src in (img, [self.Point(*q) for q in img], img[2:3]):
            r = t.untransform_pts(src)
            want = pts[2:3] if len(src) == 1 else pts
            ensure(len(r) == len(want), 'untransform_pts gives', len(r), 'points')
            for g, w in zip(r, want):
                same(g, w, 'untransform_pts')
        mat = t.inverse
        for i in range(3):
            for j in range(3):
                w = inv[3 * i + j] if i < 2 else (0, 0, 1)[j]
                ensure(near(mat[i][j], w, max(abs(x) for x in inv) + 1, rel), 'inverse is', mat, 'specified', inv)


def replay(beh, variant):
    return Interp(beh, variant).run()


U = [1, 1 / 3, 1e6, 1e-4, 0.1]


def variants(**kw):
    out = []
    for i, (u, wind) in enumerate([(1, 0), (1 / 3, 1), (1e6, -1), (1e-4, 0), (0.1, -2), (7, 3)]):
        out.append(dict(unit=u, wind=wind, ways=i, **kw))
    return out


OPS = ['translate', 'scale', 'rotate', 'rotate_ccw', 'rotate_about', 'scale_bbox', 'fit_bbox', 'compose', 'compose_outer',
       'set_matrix', 'reset', 'copy', 'canvas_fit', 'build', 'push', 'pop', 'pop_empty', 'with_empty', 'enter', 'exit', 'read']
INVS = ['Invertible', 'ScopesIntact', 'MatrixIsWord']


def behaviours(ctx, mc_depth, sims):
    c = dict(MC)
    c['Depth'] = mc_depth
    b = ctx.mc('TransformSys', cfg(constants=c, invariants=INVS, view='View', action_constraint='EmitStep'))
    s = []
    for num, depth, over in sims:
        c = dict(SIM, Depth=depth, **over)
        s += ctx.sim('TransformSys', cfg(constants=c, init='Init', next='StackyNext',
                                         invariants=['Invertible', 'ScopesIntact', 'EmitFull']), num, depth + 1)
    ctx.count_ops(b + s)
    ctx.need_ops(*OPS)
    return b, s


def c01(ctx):
    mc, sim = behaviours(ctx, ctx.scale(3, 4), [(ctx.scale(1500, 40000), 14, {}), (ctx.scale(500, 10000), 40, {})])
    ctx.replay('small model, every transition', mc, replay, [dict(eager=False, inv=False), dict(eager=False, inv=False, unit=1e6, ways=1)])
    ctx.replay('random walks', sim, replay, variants(eager=True, inv=False) + variants(eager=False, inv=False), each=False)


def c02(ctx):
    mc, sim = behaviours(ctx, ctx.scale(3, 4), [(ctx.scale(1500, 40000), 16, {}), (ctx.scale(600, 10000), 40, {})])
    v = [dict(eager=True, fwd=False), dict(eager=False, fwd=False, unit=1 / 3, ways=1)]
    ctx.replay('small model, every transition', mc, replay, v)
    ctx.replay('random walks', sim, replay, variants(eager=True, fwd=False) + variants(eager=False, fwd=False), each=False)


STACKY = dict(Trans='{<<3, -2>>, <<-1, 5>>}', Scales='{<<2, 1, -1, 1>>, <<1, 2, 1, 2>>}', Rots='{<<0, 1, 1>>, <<3, 4, 5>>}',
              Centers='{<<1, 2>>}', BoxPairs='{<<<<0, 0, 2, 1>>, <<1, 1, 4, 4>>>>}', Canvases='{<<10, 8, 2, 1, 1, 3>>}',
              Tuples='{<<1, 2, 3, 0, 1, -1>>}', N=2, MaxStack=8, MaxScopes=6)


def c03(ctx):
    mc, sim = behaviours(ctx, ctx.scale(3, 4), [(ctx.scale(800, 20000), 16, {}), (ctx.scale(1600, 30000), 40, STACKY)])
    v = [dict(eager=True), dict(eager=False, unit=1 / 3, ways=1)]
    ctx.replay('small model, every transition', mc, replay, v)
    ctx.replay('random walks', sim, replay, variants(eager=True) + variants(eager=False), each=False)
