"""C28: the crossings of SelfxSys.tla against bez_intersect of x7.geom.bezier"""
from .core import ensure, near_xy, Mismatch
from .selfx_props import World as Curves, SIM, MC, TIGHT, at
from .tlc import cfg


class World(Curves):
    def step(self, s):
        p, kinks = s['a']
        edges = self.curve(p, kinks)
        n = len(edges)
        scale = abs(complex(*self.v.get('map', (1, 0, 0, 0))[:2]))
        tol = (0.4 if self.v.get('bend') else 1e-7) * scale
        want = {}
        for loop in s['r']:
            for x in loop:
                if x[0] == 'x':
                    want[x[1], x[2]] = x
        cps = self.cps(edges)
        ends = [(cps[i], cps[(i + 1) % n]) for i in range(n)]
        keep = [(cp.c.xy(), cp.dl.xy(), cp.dr.xy(), cp.kind) for cp in cps]
        for i in range(n):
            for j in range(n):
                if i == j or i + 1 in kinks or j + 1 in kinks or (i - j) % 3 == 1 and (i + 1) % n != j:
                    continue
                x = want.get((min(i, j) + 1, max(i, j) + 1))
                self.pair(ends[i] + ends[j], edges[i], edges[j], None if x is None else self.place(p, x, edges), tol, scale, (i, j))
                if (i + 1) % n == j:
                    self.joint(ends[i] + ends[j], edges[i][3], (1, 0), scale)
                if (j + 1) % n == i:
                    self.joint(ends[i] + ends[j], edges[j][3], (0, 1), scale)
        ensure(keep == [(cp.c.xy(), cp.dl.xy(), cp.dr.xy(), cp.kind) for cp in cps], 'the control points have changed')

    def pair(self, four, ea, eb, where, tol, scale, name):
        """Segments cross in one place, or not at all"""
        ts = list(self.b.bez_intersect(*four))
        if where is None:
            ensure(ts == [], 'edges', name, 'do not cross, found', ts)
            if (name[0] + name[1]) % 3 == 0:
                pts = self.b.bez_intersect(*four, as_points=True)
                ensure(pts == [], 'edges', name, 'do not cross, found', pts)
            return
        pts = self.b.bez_intersect(*four, as_points=True)
        ensure(len(ts) == 2 and len(ts[0]) == 1 and len(ts[1]) == 1, 'edges', name, 'cross once, found', ts)
        ensure(len(pts) == 1, 'edges', name, 'cross once, found', pts)
        t, u = ts[0][0], ts[1][0]
        pt = pts[0].xy()
        ensure(type(pts[0]) is self.g.Point, 'edges', name, 'found', pts)
        ensure(abs(pt[0] - where[0]) + abs(pt[1] - where[1]) <= tol, 'edges', name, 'cross at', where, 'found', pt)
        for e, v in ((ea, t), (eb, u)):
            q = at(e, v)
            ensure(0 <= v <= 1 and abs(q[0] - pt[0]) + abs(q[1] - pt[1]) < 1e-7 * scale, 'edges', name, 'found', pt, 'but the segment is at', q, 'at', v)

    def joint(self, four, where, tu, scale):
        """One segment goes on where the other ends: this is a crossing only if ends are asked for"""
        ts = [tuple(v) for v in self.b.bez_intersect(*four, endpoints=True)]
        pts = self.b.bez_intersect(*four, endpoints=True, as_points=True)
        ensure(ts == [(tu[0],), (tu[1],)], 'where the second goes on: found', ts, 'expected', tu)
        ensure(len(pts) == 1 and near_xy(pts[0].xy(), where, 100 * scale), 'where the second goes on: found', pts, 'expected', where)
        if tu == (1, 0):
            self.together(self.back(*four[:2]) + four[2:], where, 0, scale)

    def back(self, a, b):
        """The segment the other way round"""
        C = self.b.ControlPoint
        return C(b.c, b.dr, b.dl, b.kind), C(a.c, a.dr, a.dl, a.kind)

    def together(self, four, where, t, scale):
        """Both segments begin in one place: always reported (where both end, the curve library now and then finds nothing)"""
        for kw in (dict(), dict(endpoints=True)):
            ts = [tuple(v) for v in self.b.bez_intersect(*four, **kw)]
            pts = self.b.bez_intersect(*four, as_points=True, **kw)
            ensure(ts == [(t,), (t,)], 'segments that begin or end together:', kw, 'found', ts, 'expected', t)
            ensure(len(pts) == 1 and near_xy(pts[0].xy(), where, 100 * scale), 'segments that begin or end together:', kw, 'found', pts, 'expected', where)


def play(beh, variant):
    return World(variant).run(beh)


def c28(ctx):
    V = [dict(), dict(map=(0.31, 0.4, 0, 0), handle=0.4), dict(bend=True, map=(16.1, -3, 100, -50)), dict(bend=True, handle=0.3)]
    inv = ('Partition', 'Simple', 'Parity')
    kw = dict(invariants=inv, view='View', action_constraint='EmitStep')
    b = ctx.mc('SelfxSys', cfg(constants=MC, **kw), name='SelfxSys: small curves', workers=6, timeout=850, heap='6g')
    ctx.count_ops(b)
    ctx.replay('small curves', b, play, V, each=False)
    b = ctx.sim('SelfxSys', cfg(constants=dict(SIM, MaxKinks=0), invariants=inv + ('EmitFull',)), ctx.scale(120, 3000), SIM['Depth'] + 1, procs=6, heap='2g')
    ctx.count_ops(b)
    ctx.replay('random curves', b, play, V, each=False)
    b = ctx.sim('SelfxSys', cfg(constants=TIGHT, invariants=inv + ('EmitFull',)), ctx.scale(120, 2000), SIM['Depth'] + 1, procs=6, heap='2g')
    ctx.count_ops(b)
    ctx.replay('crossings close together', b, play, [dict(handle=0.2), dict(map=(-7.1, 3, 1, 2), handle=0.45)], each=False)
    ctx.need_ops('curve')
