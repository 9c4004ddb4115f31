"""C24: SelfxSys.tla against bez_self_intersect of x7.geom.bezier and ElemCurve.self_intersect"""
import contextlib
import io
import random

from .core import ensure, near_xy, Mismatch
from .tlc import cfg

SIM = dict(Coords='-12..12', MaxN=8, MaxKinks=2, Depth=8, Sample='TRUE', Margin=8)
MC = dict(SIM, Coords='{0, 4, 9}', MaxN=4, MaxKinks=1, Depth=4, Sample='FALSE', Margin=20)
TIGHT = dict(SIM, MaxKinks=0, Margin=400)


def area(cps):
    """Signed area of the region left of a closed curve, exactly"""
    total = 0
    for p, q in zip(cps, cps[1:] + cps[:1]):
        b = [p.c.xy(), p.r.xy(), q.l.xy(), q.c.xy()]
        for i, j, w in ((0, 1, 6), (0, 2, 3), (0, 3, 1), (1, 2, 3), (1, 3, 3), (2, 3, 6)):
            total += w * (b[i][0] * b[j][1] - b[i][1] * b[j][0]) / 20
    return total


def at(b, t):
    s = 1 - t
    w = (s * s * s, 3 * s * s * t, 3 * s * t * t, t * t * t)
    return sum(k * p[0] for k, p in zip(w, b)), sum(k * p[1] for k, p in zip(w, b))


def part(b, t, u):
    """The piece of b from t to u"""
    def blossom(r, s, v):
        pts = b
        for k in (r, s, v):
            pts = [((1 - k) * p[0] + k * q[0], (1 - k) * p[1] + k * q[1]) for p, q in zip(pts, pts[1:])]
        return pts[0]
    return blossom(t, t, t), blossom(t, t, u), blossom(t, u, u), blossom(u, u, u)


class World:
    def __init__(self, variant):
        from x7.geom import bezier, geom, model, transform, colors
        import matplotlib.pyplot
        self.b, self.g, self.m, self.t, self.c, self.plt = bezier, geom, model, transform, colors, matplotlib.pyplot
        self.v = variant

    def to(self, x, y):
        """The similarity of this variant"""
        a, b, e, f = self.v.get('map', (1, 0, 0, 0))
        return a * x - b * y + e, b * x + a * y + f

    def curve(self, p, kinks):
        """Control polygons of the edges"""
        out = []
        n = len(p)
        h = self.v.get('handle', 0.25)
        for i in range(n):
            (x, y), (u, v) = p[i], p[(i + 1) % n]
            dx, dy = u - x, v - y
            rnd = random.Random(str((p[i], p[(i + 1) % n], i)))
            if i + 1 in kinks:
                k, lo, hi = rnd.choice((-1, 1)) * 0.02, 11 / 8, -3 / 8
                e = (k, k)
            else:
                lo, hi = h, 1 - h
                e = (rnd.uniform(-1, 1) * 0.002, rnd.uniform(-1, 1) * 0.002) if self.v.get('bend') else (0, 0)
            out.append([self.to(*q) for q in ((x, y), (x + dx * lo - dy * e[0], y + dy * lo + dx * e[0]), (x + dx * hi - dy * e[1], y + dy * hi + dx * e[1]), (u, v))])
        return out

    def cps(self, edges):
        P = self.g.Point
        kinds = ('sharp', 'smooth', 'very-smooth') if self.v.get('bend') else ('sharp',)
        out = []
        for i, e in enumerate(edges):
            c = P(*e[0])
            out.append(self.b.ControlPoint(c, P(*edges[i - 1][2]) - c, P(*e[1]) - c, kinds[i % len(kinds)]))
        return out

    def step(self, s):
        p, kinks = s['a']
        edges = self.curve(p, kinks)
        cps = self.cps(edges)
        start = self.v.get('start', 0) % len(cps)
        cps = cps[start:] + cps[:start]
        keep = [(cp.c.xy(), cp.dl.xy(), cp.dr.xy(), cp.kind) for cp in cps]
        with contextlib.redirect_stdout(io.StringIO()):
            if self.v.get('elem'):
                pb = self.c.PenBrush(('red', 2), 'blue')
                xf = self.t.Transform().rotate(30).scale(2, 2).translate(5, 7)
                back = self.t.Transform().translate(-5, -7).scale(0.5, 0.5).rotate(-30)
                e = self.m.ElemCurve('el', pb, [cp.transform(back) for cp in cps], closed=True, xform=xf)
                got = e.self_intersect()
                self.plt.close('all')
                for k, l in enumerate(got):
                    ensure(type(l) is self.m.ElemCurve and l.closed is True and l.penbrush == pb and l.xform == self.t.Transform(), 'loop %d is' % k, l)
                ensure(len({l.name for l in got}) == len(got), 'names are', [l.name for l in got])
                got = [l.control_points for l in got]
            else:
                got = self.b.bez_self_intersect(cps)
        ensure(keep == [(cp.c.xy(), cp.dl.xy(), cp.dr.xy(), cp.kind) for cp in cps], 'the curve has changed')
        self.judge(p, edges, s['r'], got, area(cps))

    def place(self, p, x, edges):
        """Where the place x (of a loop of the specification) is: on edge i at about t"""
        kind, i, j, n, d = x
        (u, v), (w, z) = p[i - 1], p[i % len(p)]
        if kind in 'km':
            return at(edges[i - 1], {'k': 0.2, 'm': 0.5}[kind])
        t = {'v': 0, 'x': n / d}[kind]
        return self.to(u + (w - u) * t, v + (z - v) * t)

    def judge(self, p, edges, want, got, total):
        scale = abs(complex(*self.v.get('map', (1, 0, 0, 0))[:2]))
        ensure(len(got) == len(want), '%d loops, expected %d' % (len(got), len(want)), [[cp.c.xy() for cp in l] for l in got])
        left = list(want)
        for l in got:
            spots = [cp.c.xy() for cp in l]
            for k, w in enumerate(left):
                turn = self.match(p, spots, w, scale, edges)
                if turn is not None:
                    break
            else:
                raise Mismatch('no such loop: ' + str(spots))
            w = left.pop(k)
            self.pieces(p, edges, l, w[turn:] + w[:turn], scale)
        if got:
            a = sum(area(l) for l in got)
            ensure(abs(a - total) < 1e-6 * scale * scale * 100, 'areas of the loops sum up to', a, 'the curve has', total)

    def match(self, p, spots, w, scale, edges):
        if len(spots) != len(w):
            return None
        for turn in range(len(w)):
            if all(self.fits(p, q, x, scale, edges) for q, x in zip(spots, w[turn:] + w[:turn])):
                return turn
        return None

    def fits(self, p, q, x, scale, edges):
        r = self.place(p, x, edges)
        tol = {'v': 1e-9, 'x': 0.4 if self.v.get('bend') else 1e-7, 'k': 1e-7, 'm': 1e-7}[x[0]] * scale
        return abs(q[0] - r[0]) + abs(q[1] - r[1]) <= tol

    def param(self, e, q, scale, lo=0.0, hi=1.0):
        """Where q is on e (between lo and hi)"""
        def far(t):
            return abs(complex(*at(e, t)) - complex(*q))
        grid = [lo + (hi - lo) * k / 64 for k in range(65)]
        ends = []
        for best in sorted(grid, key=far)[:3]:
            step = (hi - lo) / 64
            for _ in range(60):
                best = min((max(lo, best - step), best, min(hi, best + step)), key=far)
                step *= 0.65
            ends.append(best)
            if far(best) < 1e-8 * scale:
                break
        best = min(ends, key=far)
        d = abs(complex(*at(e, best)) - complex(*q))
        ensure(d < 1e-6 * scale, q, 'is not on the curve, but', d, 'away')
        return best

    def bound(self, e, cp, x, early, scale):
        """Where on e the control point is; early: a kink is passed for the first time"""
        return self.param(e, cp.c.xy(), scale, *({'m': (0.5, 0.5), 'k': (0, 0.3) if early else (0.7, 1)}.get(x[0], (0, 1))))

    def pieces(self, p, edges, loop, w, scale):
        """Every piece of the loop is one of the curve, run through forward"""
        n = len(w)
        for k in range(n):
            a, b = loop[k], loop[(k + 1) % n]
            x, y = w[k], w[(k + 1) % n]
            i = self.edge(x, y, len(edges))
            e = edges[i - 1]
            lo, hi = self.bound(e, a, x, y[0] == 'm', scale), self.bound(e, b, y, x[0] != 'm', scale)
            lo = 0.0 if x[0] == 'v' else lo
            hi = 1.0 if y[0] == 'v' else hi
            ensure(lo < hi, 'piece', k, 'goes backward')
            for u, v in zip(part(e, lo, hi), (a.c.xy(), a.r.xy(), b.l.xy(), b.c.xy())):
                ensure(abs(u[0] - v[0]) + abs(u[1] - v[1]) < 1e-5 * scale, 'piece %d of a loop from %s to %s is' % (k, x, y), a, b, 'expected', part(e, lo, hi))
        for cp, x in zip(loop, w):
            if x[0] in 'xk':
                ensure(cp.kind == 'sharp', 'the corner', cp, 'is', cp.kind)

    @staticmethod
    def edge(x, y, n):
        """The edge that leads from x to y"""
        if x[0] in 'vkm':
            return x[1]
        if y[0] != 'x':
            return y[1] if y[0] in 'km' else (y[1] - 2) % n + 1
        return (set(x[1:3]) & set(y[1:3])).pop() if len(set(x[1:3]) & set(y[1:3])) == 1 else None

    def run(self, beh):
        for k, s in enumerate(beh):
            if s['op'] == 'curve':
                try:
                    self.step(s)
                except Mismatch as e:
                    raise Mismatch('step %d %s%s: %s' % (k + 1, s['op'], s['a'], e))
        return len(beh)


def play(beh, variant):
    return World(variant).run(beh)


def c24(ctx):
    V = [dict(), dict(map=(0.31, 0.4, 0, 0), handle=0.4, start=1), dict(bend=True, map=(16.1, -3, 100, -50), start=2), dict(bend=True, handle=0.3, elem=True)]
    inv = ('Partition', 'Simple', 'Parity')
    kw = dict(invariants=inv, view='View', action_constraint='EmitStep')
    b = ctx.mc('SelfxSys', cfg(constants=MC, **kw), name='SelfxSys: small curves', workers=6, timeout=850, heap='6g')
    ctx.count_ops(b)
    ctx.replay('small curves', b, play, V, each=False)
    b = ctx.sim('SelfxSys', cfg(constants=SIM, invariants=inv + ('EmitFull',)), ctx.scale(400, 6000), SIM['Depth'] + 1, procs=6, heap='2g')
    ctx.count_ops(b)
    ctx.replay('random curves', b, play, V, each=False)
    b = ctx.sim('SelfxSys', cfg(constants=TIGHT, invariants=inv + ('EmitFull',)), ctx.scale(300, 4000), SIM['Depth'] + 1, procs=6, heap='2g')
    ctx.count_ops(b)
    ctx.replay('crossings close together', b, play, [dict(handle=0.2), dict(map=(-7.1, 3, 1, 2), handle=0.45, start=3)], each=False)
    ctx.need_ops('curve')
