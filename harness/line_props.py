"""C07: LineSys.tla against x7.geom.geom.Line and polygon_area"""
import math
from fractions import Fraction as F

from .core import ensure, near, near_xy, raises, Mismatch
from .tlc import cfg

BASE = dict(MaxObjs=3, Depth=3, Lim=400, Sides='{3}', Sample='FALSE')
SIM = dict(Xs='(-12..12) \\cup {40, -37}', MaxObjs=10, Depth=40, Lim=300, Sides='{3, 4, 5, 6, 9}', Sample='TRUE')


class World:
    def __init__(self, variant):
        from x7.geom import geom
        self.g = geom
        self.u = variant.get('unit', 1)
        self.rel = variant.get('rel', False)
        self.exact = self.u in (1, -1, 1024, 0.25)
        self.o = []
        self.args = []

    def pt(self, x, y):
        u = self.u
        if self.rel:
            return self.g.PointRelative(x * u, y * u - 7 * u, self.g.Point(0, 7 * u))
        return self.g.Point(x * u, y * u)

    def vec(self, x, y):
        if self.rel:
            return self.g.VectorRelative(self.pt(x + 2, y), self.pt(2, 0))
        return self.g.Vector(x * self.u, y * self.u)

    def run(self, beh):
        for n, s in enumerate(beh):
            try:
                self.step(s)
                self.observe(s)
            except Mismatch as e:
                raise Mismatch('step %d %s%s on %s: %s' % (n + 1, s['op'], s['a'], s['o'], e))
        return len(beh)

    def mag(self, s):
        return abs(self.u) * max([1] + [abs(v) for l in s['o'] for v in l] + [abs(v) for v in s['a'] if isinstance(v, int)])

    def step(self, s):
        L, o, op, a, u, r = self.g.Line, self.o, s['op'], s['a'], self.u, s['r']
        new = None
        if op == 'init':
            for x, y, dx, dy in s['o']:
                o.append(L(self.pt(x, y), self.pt(x + dx, y + dy)))
        elif op == 'direction':
            new = L(self.pt(a[0], a[1]), self.g.Vector(a[2] * u, a[3] * u))
        elif op == 'points':
            new = L(self.pt(a[0], a[1]), self.pt(a[2], a[3]))
        elif op == 'from_pts':
            new = L.from_pts(self.pt(a[0], a[1]), self.pt(a[2], a[3]))
        elif op == 'join':
            new = L(o[a[0] - 1].p1, o[a[1] - 1].p2)
        elif op in '+-':
            v = self.vec(a[1], a[2])
            new = o[a[0] - 1] + v if op == '+' else o[a[0] - 1] - v
            ensure(near_xy(v.xy(), (a[1] * u, a[2] * u), self.mag(s)), 'the vector moved')
        elif op == 'intersection':
            p, q = o[a[0] - 1], o[a[1] - 1]
            if self.exact or r:
                ensure(bool(p.parallel(q)) == (not r), 'parallel() is', p.parallel(q))
            if not r and self.exact:
                raises(self.g.ParallelLineError, p.intersection, q)
            elif r:
                got = p.intersection(q)
                self.same_pt(got, r, self.cond(s, p, q), 'intersection')
        elif op == 'segments':
            self.segments(s, o[a[0] - 1], o[a[1] - 1])
        elif op == 'closest':
            pt = self.pt(a[1], a[2])
            got = o[a[0] - 1].closest(pt)
            self.same_pt(got, r, self.mag(s) * 10, 'closest')
            ensure(near_xy(pt.xy(), (a[1] * u, a[2] * u), self.mag(s)), 'the point moved')
        elif op == 'area':
            pts = [self.pt(*v) for v in a]
            m = (max(abs(c) for v in a for c in v) + 1) * abs(u)
            for seq in (pts, tuple(pts)):
                got = self.g.polygon_area(seq)
                ensure(near(got, r[0] / 2 * u * u, m * m * len(a)), 'polygon_area is', got, 'specified', r[0] / 2 * u * u)
        else:
            raise RuntimeError(op)
        if new is not None:
            ensure(type(new) is L and not any(new is x for x in o), op, 'returned', new)
            o.append(new)

    def cond(self, s, p, q):
        """magnitude allowing for the angle between the lines (coordinates are whole multiples of the unit)"""
        return self.mag(s) * 1e4

    def same_pt(self, got, r, mag, what):
        w = (r[0] / r[2] * self.u, r[1] / r[2] * self.u)
        ensure(isinstance(got, self.g.BasePoint) and near_xy(got.xy(), w, mag), what, 'is', got, 'specified', w)

    def segments(self, s, p, q):
        r = s['r']
        meet, boxes = r[0], r[1]
        fn = p.segment_intersection
        if meet == 3 and not self.exact:
            return
        if meet == 3:
            # same direction: refused when the boxes overlap, else no crossing
            if boxes:
                raises(self.g.ParallelLineError, fn, q)
            else:
                ensure(fn(q) is None, 'parallel segments apart give', fn(q))
            return
        got = fn(q)
        if meet == 0:
            ensure(got is None, 'segments that do not meet give', got)
            return
        if got is None:
            # an end point on the other segment is reported when the boxes overlap
            ensure(meet == 2 and not (boxes and self.exact), 'segments meeting at %s give None' % (r[2],))
            return
        self.same_pt(got[0], r[2], self.cond(s, p, q), 'segment intersection')
        for k, g in ((3, got[1]), (4, got[2])):
            ensure(near(g, float(F(r[k][0], r[k][1])), 1e4), 'parameter is', g, 'specified', r[k])
            ensure(-1e-9 <= g <= 1 + 1e-9, 'parameter off the segment', g)

    def observe(self, s):
        u = self.u
        ensure(len(self.o) == len(s['o']))
        m = self.mag(s)
        for i, (x, (ox, oy, dx, dy)) in enumerate(zip(self.o, s['o'])):
            what = 'line %d %s' % (i + 1, (ox, oy, dx, dy))
            for name, (wx, wy) in dict(origin=(ox, oy), direction=(dx, dy), p1=(ox, oy), p2=(ox + dx, oy + dy), midpoint=(ox + dx / 2, oy + dy / 2)).items():
                ensure(near_xy(getattr(x, name).xy(), (wx * u, wy * u), m), what, name, 'is', getattr(x, name))
            b = x.segment_bbox()
            w = [min(ox, ox + dx), min(oy, oy + dy), max(ox, ox + dx), max(oy, oy + dy)]
            w = [q * u for q in (w if u > 0 else w[2:] + w[:2])]
            ensure(all(near(p, q, m) for p, q in zip(b.as_tuple(), w)), what, 'segment_bbox is', b)


def replay(beh, variant):
    return World(variant).run(beh)


VARS = [dict(unit=1), dict(unit=0.1, rel=True), dict(unit=1024, rel=True), dict(unit=-1), dict(unit=0.001), dict(unit=0.25)]


def c07(ctx):
    p = ctx.mc('LineSys', cfg(constants=dict(BASE, Xs='0..%d' % ctx.scale(2, 3)), init='PairInit', next='Stay', invariants=['Sound', 'Emit']), name='every pair of segments on a grid')
    a = ctx.mc('LineSys', cfg(constants=dict(BASE, Xs=ctx.scale('{0, 2, 5}', '{-1, 0, 2, 5}'), Sides=ctx.scale('{3, 4}', '{3, 4}')), init='PolyInit', next='Stay', invariants=['AreaSound', 'Emit']), name='every polygon on a grid')
    s = ctx.sim('LineSys', cfg(constants=SIM, invariants=['Sound', 'AreaSound', 'EmitFull'], properties=['Unchanged']), ctx.scale(3000, 100000), 41)
    ctx.count_ops(s)
    ctx.need_ops('direction', 'points', 'from_pts', 'join', '+', '-', 'intersection', 'segments', 'closest', 'area')
    ctx.replay('every pair of segments on a grid', p, replay, VARS[:4])
    ctx.replay('every polygon on a grid', a, replay, VARS[:2])
    ctx.replay('random walks', s, replay, VARS, each=False)
