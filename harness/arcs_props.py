"""C23: ArcsSys.tla against arc, arc2p, circle, cross, plus, min_rotation and the path functions of x7.geom.utils"""
import math
import sys
import types

from .core import ensure, near, near_xy, Mismatch
from .tlc import cfg

CENTERS = ['<<%d, %d>>' % c for c in ((0, 0), (3, -4), (-20, 7), (100, 35), (0, -1), (-6, 0))]
ANGLES = [0, 1, 4, 40, 90, 179, 180, 181, 240, 359, 360, 361, 480, 539, 540, 720, 721, 900, 1080, 1260, 1437, 1438, 1439, 1440, 1441, 1802, -1, -2, -90, -360, -543, -720, -1080, -1439, -1440, -1441, -2003, 4322]


def ints(lst):
    return '{%s}' % ', '.join(map(str, lst))


SIM = dict(Radii='{0, 1, 2, 5, 12, 90}', Angles=ints(ANGLES), Centers='{%s}' % ', '.join(CENTERS), Steps='{-1, 1, 2, 3, 7, 20}',
           MaxPaths=12, MaxRuns=5, MaxTerms=20, Depth=18, Sample='TRUE', Ops='{"arc", "arc2p", "circle", "given", "map", "convert", "check", "least"}')
MC1 = dict(SIM, Radii='{2}', Centers='{<<3, -4>>}', Steps='{-1, 2}', MaxPaths=1, Depth=1, Sample='FALSE', Ops='{"arc", "arc2p", "circle", "least"}')
MC2 = dict(SIM, Radii='{2}', Centers='{<<3, -4>>}', Angles='{0, 361}', Steps='{3}', MaxPaths=3, Depth=3, Sample='FALSE', Ops='{"given", "map", "convert", "check"}')


class World:
    def __init__(self, variant):
        if 'x7.geom.plot_viewer' not in sys.modules:
            try:
                import x7.geom.plot_viewer      # noqa: F401   (needs tkinter)
            except Exception:
                stub = types.ModuleType('x7.geom.plot_viewer')
                stub.PlotViewer = None
                sys.modules['x7.geom.plot_viewer'] = stub
        from x7.geom import utils, geom
        self.x, self.g = utils, geom
        self.v = variant
        self.u = variant.get('unit', 1)
        self.pa, self.spec = [], []

    def dir(self, r, a):
        return r * self.u * math.cos(math.radians(a / 4)), r * self.u * math.sin(math.radians(a / 4))

    def place(self, terms):
        d = [self.dir(*t) for t in terms]
        return math.fsum(x for x, y in d), math.fsum(y for x, y in d)

    def expand(self, path):
        out = []
        for run in path['runs']:
            cx, cy = self.place(run['c'])
            for i in range(run['n'] + 1):
                dx, dy = self.dir(run['r'], run['a'] + (run['b'] - run['a']) * i / max(1, run['n']))
                out.append((cx + dx, cy + dy))
        return out

    def center(self, c):
        return c[0] * self.u, c[1] * self.u

    def opt(self, c):
        """The center, by itself or as a default"""
        return {} if c == (0, 0) and self.v.get('defaults') else dict(c=self.g.Point(*self.center(c)))

    def deg(self, a):
        return a // 4 if a % 4 == 0 and self.v.get('ints') else a / 4

    def step(self, s):
        op, a, r, x, g = s['op'], s['a'], s['r'], self.x, self.g
        P = g.Point
        new = None
        u = self.u
        steps = (lambda n: {} if n < 0 and self.v.get('defaults') else dict(steps=n))
        if op == 'arc':
            rad, p, q, c, n, d = a
            kw = dict(self.opt(c), **steps(n))
            if not (d == 'ccw' and self.v.get('defaults')):
                kw['direction'] = d
            new = x.arc(rad * u, self.deg(p), self.deg(q), **kw)
        elif op in ('arc2p', 'noarc'):
            rad, p, q, c = a[:4]
            cx, cy = self.center(c)
            (sx, sy), (ex, ey) = self.dir(rad, p), self.dir(rad, q)
            S, E = P(cx + sx, cy + sy), P(cx + ex, cy + ey)
            if op == 'arc2p':
                n, side = a[4:]
                kw = steps(n)
                if not (side == 1 and self.v.get('defaults')):
                    kw['side'] = side
                new = x.arc2p(rad * u, S, E, **kw)
            else:
                try:
                    got = x.arc2p(math.hypot(sx - ex, sy - ey) / 2 * a[4] / 100 if a[4] else rad * u, S, E)
                except ValueError:
                    pass
                else:
                    ensure(False, 'an impossible arc is', got[:5])
            ensure(near_xy(S.xy(), (cx + sx, cy + sy), 0) and near_xy(E.xy(), (cx + ex, cy + ey), 0), 'the ends have moved')
        elif op in ('circle', 'cross', 'plus'):
            new = getattr(x, op)(a[0] * u, **self.opt(a[1]))
        elif op == 'given':
            new = self.expand(r)
            if r['kind'] == 'pt':
                new = [P(*p) for p in new]
        elif op == 'rotate':
            k, ang, pt, ccw = a
            f = x.path_rotate_ccw if ccw else x.path_rotate
            new = f(self.pa[k - 1], self.deg(ang)) if not pt and self.v.get('defaults') else f(self.pa[k - 1], self.deg(ang), as_pt=pt)
        elif op == 'translate':
            k, c, pt, v = a
            d = (g.Vector if v else P)(*self.center(c))
            new = x.path_translate(self.pa[k - 1], d) if not pt and self.v.get('defaults') else x.path_translate(self.pa[k - 1], d, pt)
            ensure(d.xy() == self.center(c), 'the distance has changed')
        elif op == 'to_xy':
            new = x.path_to_xy(self.pa[a[0] - 1])
        elif op == 'from_xy':
            new = x.path_from_xy(self.pa[a[0] - 1])
        elif op == 'check':
            k, i = a
            lst = list(self.pa[k - 1])
            if i:
                lst = [P(*p) if isinstance(p, tuple) else p for p in lst]
                lst.insert((i - 1) * len(lst) // 2, (1, 2))
            try:
                x.check_point_list(lst)
                got = True
            except ValueError:
                got = False
            ensure(got is r, 'check_point_list of', lst, 'passes' if got else 'refuses')
        elif op == 'least':
            got = x.min_rotation(self.deg(a[0]), self.deg(a[1]))
            ensure(near(got, r / 4), 'min_rotation%s is' % str((self.deg(a[0]), self.deg(a[1]))), got, 'expected', r / 4)
        else:
            raise RuntimeError(op)
        if new is not None:
            ensure(isinstance(new, list) and all(new is not p for p in self.pa), op, 'gives', type(new))
            self.pa.append(new)
            self.spec.append((r['kind'], self.expand(r)))

    def look(self):
        for i, (p, (kind, want)) in enumerate(zip(self.pa, self.spec)):
            ensure(len(p) == len(want), 'path %d has %d points, expected %d' % (i + 1, len(p), len(want)))
            m = max([abs(v) for w in want for v in w] + [self.u]) * 8
            for j, (q, w) in enumerate(zip(p, want)):
                if kind == 'pt':
                    ensure(type(q) is self.g.Point, 'path %d has' % (i + 1), q, 'expected a point')
                    q = q.xy()
                else:
                    ensure(type(q) is tuple and len(q) == 2, 'path %d has' % (i + 1), q, 'expected a pair')
                ensure(near_xy(q, w, m), 'path %d, point %d is' % (i + 1, j), q, 'expected', w)

    def run(self, beh):
        for k, s in enumerate(beh):
            try:
                self.step(s)
                self.look()
            except Mismatch as e:
                raise Mismatch('step %d %s%s: %s' % (k + 1, s['op'], s['a'], e))
        return len(beh)


def play(beh, variant):
    return World(variant).run(beh)


def c23(ctx):
    V = [dict(), dict(unit=0.1, defaults=True, ints=True), dict(unit=64, ints=True)]
    inv = ('LeastTurn', 'Travel', 'Meets')
    kw = dict(invariants=inv, properties=('Grow',), view='View', action_constraint='EmitStep')
    for name, c in (('single arcs', dict(MC1, Steps=ctx.scale('{-1, 2}', '{-1, 1, 2, 5}'))), ('paths', dict(MC2, Depth=ctx.scale(3, 4)))):
        b = ctx.mc('ArcsSys', cfg(constants=c, **kw), name='ArcsSys: ' + name, workers=6, timeout=850, heap='6g')
        ctx.count_ops(b)
        ctx.replay(name, b, play, V, each=False)
    b = ctx.sim('ArcsSys', cfg(spec='Walk', constants=SIM, invariants=inv + ('EmitFull',)), ctx.scale(2000, 20000), SIM['Depth'] + 1, procs=6, heap='2g')
    ctx.count_ops(b)
    ctx.replay('random paths', b, play, V, each=False)
    ctx.need_ops('arc', 'arc2p', 'noarc', 'circle', 'cross', 'plus', 'given', 'rotate', 'translate', 'to_xy', 'from_xy', 'check', 'least')
