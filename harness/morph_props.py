"""C18: MorphSys.tla against Morph and MorphMultiStep of x7.geom.anim"""
import contextlib
import io
import math
import random

from .core import ensure, near, raises, Mismatch
from .tlc import cfg

SHORT = dict(Places=2, Bases=4, Times='{<<0, 1>>, <<1, 1>>, <<1, 2>>}', Steps='{<<<<1, 1>>>>, <<<<1, 4>>, <<1, 2>>>>}', MaxMorphs=2, Sample='FALSE')
EQUAL = dict(SHORT, Counts='<<3, 3, 3, 3>>', Fns='{"id", "late"}', Ops='{"morph", "strict", "stranger", "all", "restore"}', Depth=4)
MIXED = dict(SHORT, Counts='<<3, 5, 2>>', Fns='{"id"}', Ops='{"morph", "strict", "stranger", "multi", "all", "restore"}', Depth=4, Places=1, Bases=3)
SIM = dict(Places=3, Bases=7, Times='{<<0, 1>>, <<1, 1>>, <<1, 2>>, <<1, 4>>, <<3, 4>>, <<-1, 2>>, <<3, 2>>, <<1, 3>>}', Fns='{"id", "back", "late", "third", "twice", "never"}',
           Steps='{<<<<1, 1>>>>, <<<<1, 4>>, <<1, 2>>>>, <<<<1, 2>>, <<1, 1>>>>, <<<<1, 3>>, <<1, 2>>, <<3, 4>>, <<2, 1>>>>, <<<<1, 4>>, <<3, 4>>, <<1, 1>>>>}',
           MaxMorphs=7, Depth=18, Sample='TRUE')
SIM1 = dict(SIM, Counts='<<4, 4, 4, 4, 4, 4, 4>>', Ops='{"morph", "strict", "stranger", "all", "restore"}')
SIM2 = dict(SIM, Counts='<<2, 5, 3, 4, 6, 3, 2>>', Ops='{"morph", "strict", "stranger", "multi", "all", "restore"}')


def split(s, b):
    def mid(p, q):
        return p[0] + b * (q[0] - p[0]), p[1] + b * (q[1] - p[1])
    ab, bc, cd = mid(s[0], s[1]), mid(s[1], s[2]), mid(s[2], s[3])
    abc, bcd = mid(ab, bc), mid(bc, cd)
    m = mid(abc, bcd)
    return (s[0], ab, abc, m), (m, bcd, cd, s[3])


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def same_seg(a, b, tol):
    return all(dist(p, q) <= tol for p, q in zip(a, b))


def traces(segs, pieces, tol):
    """Do the pieces cut up the segments, in order?"""
    i = 0
    for s in segs:
        while True:
            if i >= len(pieces):
                return False
            p = pieces[i]
            i += 1
            if same_seg(s, p, tol):
                break
            whole = dist(s[0], s[1])
            b = dist(p[0], p[1]) / whole if whole > tol else 0.5
            if not 0 < b < 1:
                return False
            left, s = split(s, b)
            if not same_seg(left, p, tol):
                return False
    return i == len(pieces)


class Shape:
    """What a curve looks like, however many control points say so"""
    def __init__(self, curve):
        cps = curve.control_points
        self.closed = curve.closed
        self.look = curve.penbrush
        pairs = zip(cps, cps[1:] + cps[:1]) if curve.closed else zip(cps, cps[1:])
        self.segs = [(p.c.xy(), (p.c + p.dr).xy(), (q.c + q.dl).xy(), q.c.xy()) for p, q in pairs]

    def shown_by(self, other, tol):
        if self.closed != other.closed:
            return False
        if traces(self.segs, other.segs, tol):
            return True
        n = len(other.segs)
        return self.closed and any(traces(self.segs, other.segs[k:] + other.segs[:k], tol) for k in range(1, n))


def points(curve):
    return [v for cp in curve.control_points for p in (cp.c, cp.dl, cp.dr) for v in p.xy()]


class World:
    def __init__(self, variant, probe=None):
        from x7.geom import anim, model, geom, bezier, colors
        self.a, self.m, self.g, self.b, self.c = anim, model, geom, bezier, colors
        self.v = variant
        self.u = variant.get('unit', 1)
        self.tol = 1e-7 * 40 * self.u
        self.force = None
        self.cur, self.mor = [], []
        self.probe = probe

    def start(self, counts, places):
        rnd = random.Random(self.v.get('seed', 1))
        g, m, u = self.g, self.m, self.u
        pb = self.c.PenBrush('black')
        for b, n in enumerate(counts):
            a0 = rnd.random() * 6
            cps = []
            for i in range(n):
                a, r = a0 + 2 * math.pi * i / n, rnd.randint(8, 20)
                x, y = round(r * math.cos(a) + 3 * b, 1) * u, round(r * math.sin(a), 1) * u
                h = [g.Vector(rnd.randint(-6, 6) * u, rnd.randint(-6, 6) * u) for _ in range(2)]
                c = g.PointRelative(x - u, y + u, g.Point(u, -u)) if self.v.get('rel') else g.Point(x, y)
                cps.append(self.b.ControlPoint(c, h[0], h[1], rnd.choice(['smooth', 'sharp', 'very-smooth'])))
            self.cur.append(m.ElemCurve('c%d' % (b + 1), pb, cps, closed=self.v.get('closed', True)))
        self.shapes = [Shape(c) for c in self.cur]
        self.first = [points(c) for c in self.cur]
        self.model = m.Group('model', pb)
        sub, deep = m.Group('sub', pb), m.Group('deep', pb)
        self.paths = [(), ('sub',), ('sub', 'deep')]
        for p, to in zip(range(places), (self.model, sub, deep)):
            to.add('r%d' % p, m.ElemRectangle('r%d' % p, pb, g.Point(0, 0), g.Point(5 * u, 5 * u)))
            to.add('c%d' % (p + 1), self.cur[p])
            to.add('z%d' % p, m.ElemEllipse('z%d' % p, pb, g.Point(0, 0), g.Point(5 * u, 5 * u)))
        sub.add('deep', deep)
        self.model.add('sub', sub)
        self.holder = self.a.AnimationHolder()
        self.places = places

    def group(self, p):
        g = self.model
        for n in self.paths[p]:
            g = g.elems[n]
        return g

    def fn(self, f):
        def at(t):
            if f == 'late':
                return None if t < 0.5 else 2 * t - 1
            return {'id': t, 'back': 1 - t, 'third': 1 / 3, 'twice': 2 * t, 'never': None}[f]
        return lambda t: self.force[0] if self.force else at(t)

    @staticmethod
    def num(t):
        return t[0] / t[1] if t[0] % t[1] else t[0] // t[1]

    def apply(self, s):
        op, a = s['op'], s['a']
        if op in ('morph', 'strict'):
            src, tg, f = self.cur[a[0] - 1], self.cur[a[1] - 1], self.fn(a[2])

            def make():
                return self.a.Morph(self.model, src, tg, f, **({'force': False} if op == 'strict' else {}))
        elif op == 'multi':
            src, f = self.cur[a[0] - 1], self.fn(a[3])

            def make():
                return self.a.MorphMultiStep(self.model, src, [(self.num(t), self.cur[b - 1]) for b, t in zip(a[1], a[2])], f, **({} if a[4] else {'force': False}))
        elif op == 'stranger':
            k, x, y = a
            src, tg = self.cur[x - 1], self.cur[y - 1]

            def make():
                if k == 'multi':
                    return self.a.MorphMultiStep(self.model, src, [(1, tg)], lambda t: t)
                return self.a.Morph(self.model, src, tg, lambda t: t)
        elif op == 'update':
            self.mor[a[0] - 1][0].update(self.num(a[1]))
            return
        elif op == 'all':
            self.holder.update(self.num(a[0]))
            return
        elif op == 'restore':
            self.mor[a[0] - 1][0].restore()
            return
        if s['r']:
            raises(self.a.MorphError, make)
            return
        then = Shape(src)
        mo = make()
        self.mor.append((mo, op, a, then))
        self.cur.append(mo.morph)
        self.holder.add(mo)

    def expect(self, m, t):
        """What morph m has to show at t: (points or None for out of sight); in the twin, just before that update"""
        mo, op, a, then = self.mor[m]
        v = mo.t_func(t)
        if v is None:
            return None

        def shown(at):
            self.force = (at,)
            mo.update(t)
            self.force = None
            return points(mo.morph), Shape(mo.morph)
        if op != 'multi':
            ends = [(0, Shape(self.cur[a[0] - 1])), (1, self.shapes[a[1] - 1])]
        else:
            ends = [(0, then)] + [(self.num(x), self.shapes[b - 1]) for b, x in zip(a[1], a[2])]
        got = []
        for at, want in ends:
            pts, shape = shown(at)
            ensure(want.shown_by(shape, self.tol), 'morph %d does not show curve %s at %s' % (m + 1, 'source' if at == 0 else 'target', at), shape.segs, want.segs)
            got.append((at, pts))
        if op != 'multi':
            (_, p), (_, q) = got
            return [x + v * (y - x) for x, y in zip(p, q)]
        if v <= 0:
            return got[0][1]
        for (s, p), (e, q) in zip(got, got[1:]):
            if s <= v <= e:
                return [x + (v - s) / (e - s) * (y - x) for x, y in zip(p, q)]
        return got[-1][1]

    def shows(self, m, want):
        got = self.mor[m][0].morph
        if want is None:
            lim = 100 * 60 * self.u
            ensure(min(max(abs(x) for x in s[0]) for s in Shape(got).segs) > lim, 'morph %d is not out of sight' % (m + 1), got.control_points)
        else:
            pts = points(got)
            ensure(len(pts) == len(want) and all(abs(x - y) <= self.tol for x, y in zip(pts, want)), 'morph %d shows' % (m + 1), pts, 'expected', want)

    def look(self, s):
        """The model and the base curves"""
        for i, (shape, w) in enumerate(zip(self.shapes, s['w'])):
            ensure(shape.shown_by(Shape(self.cur[i]), self.tol), 'curve %d is no longer what it was' % (i + 1), self.cur[i].control_points)
        for p in range(self.places):
            g = self.group(p)
            c = s['pl'][p]
            names = ['r%d' % p, 'c%d' % (p + 1), 'z%d' % p] + (['deep'] if p == 1 else ['sub'] if p == 0 else [])
            ensure(list(g.elems) == names, 'the model has', list(g.elems), 'expected', names)
            e = g.elems['c%d' % (p + 1)]
            ensure(type(e) is self.m.ElemCurve and e.name == 'c%d' % (p + 1) and e.penbrush == self.c.PenBrush('black') and e.closed is self.v.get('closed', True), 'place %d has' % (p + 1), e)
            ensure(e is self.cur[c - 1], 'place %d does not show curve %d' % (p + 1, c))
            w = s['w'][c - 1]
            if w:
                if self.v.get('plain'):
                    want = [sum(x[0] / x[1] * f[i] for x, f in zip(w, self.first)) for i in range(len(self.first[0]))]
                    pts = points(e)
                    ensure(len(pts) == len(want) and all(abs(x - y) <= self.tol for x, y in zip(pts, want)), 'place %d shows' % (p + 1), pts, 'expected', want)

    def quiet(self, f, *a):
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*a)


def player(counts, places):
    def play(beh, variant):
        w, twin = World(variant), World(variant)
        w.start(counts, places)
        twin.start(counts, places)
        for k, s in enumerate(beh):
            try:
                want = []
                if s['op'] in ('update', 'all'):
                    t = w.num(s['a'][-1])
                    for m in ([s['a'][0] - 1] if s['op'] == 'update' else range(len(twin.mor))):
                        want.append((m, twin.quiet(twin.expect, m, t)))
                        twin.mor[m][0].update(t)
                else:
                    twin.quiet(twin.apply, s)
                w.quiet(w.apply, s)
                for m, x in want:
                    if not any(a[0] == len(w.shapes) + m + 1 and n > m for n, (_, _, a, _) in enumerate(w.mor)) or s['op'] == 'update':
                        w.shows(m, x)
                w.look(s)
            except Mismatch as e:
                raise Mismatch('step %d %s%s: %s' % (k + 1, s['op'], s['a'], e))
        return len(beh)
    return play


def c18(ctx):
    V = [dict(seed=1), dict(seed=2, closed=False), dict(seed=3, unit=0.1), dict(seed=4, unit=16, closed=False)]
    P = [dict(v, plain=True) for v in V] + [dict(seed=5, rel=True, plain=True)]
    kw = dict(invariants=('Mean', 'BasesStay', 'Homes', 'Active', 'Ends'), properties=('OnlyUpdated',), view='View', action_constraint='EmitStep')
    for name, c, n, v in (('equal numbers of points', EQUAL, 1, P), ('points to be added', MIXED, 1, V)):
        b = ctx.mc('MorphSys', cfg(constants=dict(c, Depth=c['Depth'] + ctx.scale(0, 1)), **kw), name='MorphSys: ' + name, workers=6, timeout=850, heap='6g')
        ctx.count_ops(b)
        ctx.replay(name, b, player([int(x) for x in c['Counts'].strip('<>').split(',')], c['Places']), v, each=False)
    for name, c, v in (('random morphs, equal numbers of points', SIM1, P), ('random morphs', SIM2, V)):
        b = ctx.sim('MorphSys', cfg(spec='Walk', constants=c, invariants=('Mean', 'BasesStay', 'Homes', 'Active', 'Ends', 'EmitFull')), ctx.scale(1500, 15000), c['Depth'] + 1, procs=6, heap='2g')
        ctx.count_ops(b)
        ctx.replay(name, b, player([int(x) for x in c['Counts'].strip('<>').split(',')], c['Places']), v, each=False)
    ctx.need_ops('morph', 'strict', 'stranger', 'multi', 'update', 'all', 'restore')
