"""C29: OffsetSys.tla against ElemCurve.offset of x7.geom.model"""
import math

from .core import ensure, near_xy, Mismatch
from .tlc import cfg

SIM = dict(Coords='-9..9', Ns='2..5', Roots='1..27', Dists='{-30, -7, -2, -1, 1, 2, 3, 9, 45}', Limit=100, Depth=18, Sample='TRUE')
MC = dict(SIM, Coords='{-4, 0, 3, 4}', Ns='{2}', Dists='{-40, 1}', Depth=7, Sample='FALSE')
KINDS = ('sharp', 'smooth', 'very-smooth')


class World:
    def __init__(self, variant):
        from x7.geom import geom, bezier, model, transform, colors
        self.g, self.b, self.m, self.t, self.c = geom, bezier, model, transform, colors
        self.v = variant
        self.pts = []
        self.el = None

    def make(self):
        P = self.g.Point
        u = self.v.get('unit', 1)
        to = self.v.get('map')
        xf = None
        pts = [(x * u, y * u) for x, y in self.pts]
        if to:
            # the outline is that of the element's points under its own transform
            xf = self.t.Transform().scale(to, to).rotate(self.v['turn']).translate(5, -3)
            pts = [xf.untransform(*p) for p in pts]
        cps = []
        for k in range(0, len(pts), 3):
            l, c, r = (P(*p) for p in pts[k:k + 3])
            cps.append(self.b.ControlPoint(c, l - c, r - c, KINDS[(k // 3) % 3] if self.v.get('kinds') else 'sharp'))
        self.pb = self.c.PenBrush(('red', 2), 'blue') if self.v.get('kinds') else self.c.PenBrush('black')
        self.el = self.m.ElemCurve('el', self.pb, cps, True, xf)
        self.keep = self.state(self.el)

    @staticmethod
    def state(e):
        return [(cp.c.xy(), cp.dl.xy(), cp.dr.xy(), cp.kind) for cp in e.control_points], e.xform.as_6tuple(), e.name, e.penbrush, e.closed

    def step(self, s):
        op, a, r = s['op'], s['a'], s['r']
        if op == 'add':
            self.pts.append(tuple(a))
            return
        if self.el is None:
            self.make()
        u = self.v.get('unit', 1)
        d = a[0]
        if u != 1 and any(p[5] for p in r):
            return      # the limit does not scale
        got = self.el.offset(d * u)
        ensure(self.state(self.el) == self.keep, 'the curve has changed')
        ensure(type(got) is self.m.ElemCurve and got.closed is True and got.penbrush == self.pb and got.name == 'el_o', 'the result is', got)
        ensure(got.xform == self.t.Transform(), 'the result has transform', got.xform)
        n = len(r) // 3
        cps = got.control_points
        ensure(len(cps) == n, len(cps), 'control points instead of', n)
        for k, cp in enumerate(cps):
            for what, p, w in zip(('left handle', 'centre', 'right handle'), (cp.l, cp.c, cp.r), r[3 * k:3 * k + 3]):
                x, y, vx, vy, den, far = w
                if 0.999 < math.hypot(vx, vy) / den / 100 < 1.001 and u == 1:
                    continue        # at the limit
                if far:
                    h = math.hypot(vx, vy)
                    vx, vy, den = vx / h * 100, vy / h * 100, 1
                ensure(near_xy(p.xy(), ((x + vx / den) * u, (y + vy / den) * u), 100 * u, 1e-8), what, 'of control point', k, 'of the curve moved by', d * u, 'is', p.xy(), 'instead of', ((x + vx / den) * u, (y + vy / den) * u))
            ensure(not self.v.get('kinds') or sorted(c.kind for c in cps) == sorted(c.kind for c in self.el.control_points), 'kinds are', [c.kind for c in cps])

    def run(self, beh):
        for k, s in enumerate(beh):
            try:
                self.step(s)
            except Mismatch as e:
                raise Mismatch('step %d %s%s: %s' % (k + 1, s['op'], s['a'], e))
        return len(beh)


def play(beh, variant):
    return World(variant).run(beh)


def c29(ctx):
    V = [dict(), dict(map=2, turn=30, kinds=True), dict(unit=0.5), dict(map=0.25, turn=-45)]
    inv = ('Parallel', 'SameBothWays')
    b = ctx.mc('OffsetSys', cfg(constants=MC, invariants=inv, view='View', action_constraint='EmitDone'), name='OffsetSys: small polygons', workers=6, timeout=850, heap='6g')
    ctx.count_ops(b)
    ctx.replay('small polygons', b, play, V, each=False)
    b = ctx.sim('OffsetSys', cfg(constants=SIM, invariants=inv + ('EmitFull',)), ctx.scale(1500, 15000), SIM['Depth'] + 1, procs=6, heap='2g')
    ctx.count_ops(b)
    ctx.replay('random polygons', b, play, V, each=False)
    ctx.need_ops('add', 'offset')
