"""C06: BBoxSys.tla against x7.geom.geom.BBox"""
from .core import ensure, near, raises, Mismatch
from .tlc import cfg

GRID = '{<<a, b, c, d>> : a, b, c, d \\in 0..%d}'
MAPS = '{<<1, 0, 3, 0, 1, -2>>, <<0, -1, 0, 1, 0, 0>>, <<-2, 0, 1, 0, 3, 0>>, <<1, 1, 0, -1, 1, 4>>, <<1, 0, 0, 2, 1, 0>>}'
MC = dict(Corners='{<<3, -2, -1, 4>>, <<1, 0, 7, 2>>}', Points='{<<5, 5>>, <<-1, 1>>}', Amounts='{<<2>>, <<-3, 1>>}', Maps='{<<1, 1, 0, -1, 1, 4>>}',
          MaxObjs=3, Depth=3, Lim=300, Sample='FALSE')
SIM = dict(Corners='{<<3, -2, -1, 4>>, <<1, 0, 7, 2>>, <<-6, -6, -1, -2>>, <<8, 8, 2, 2>>, <<0, 0, 4, 0>>, <<3, 3, 3, 3>>, <<-4, 5, -1, -2>>, <<7, 0, 12, 2>>, <<3, 4, 9, 11>>}',
           Points='{<<5, 5>>, <<-1, 1>>, <<3, 0>>, <<-7, 2>>, <<12, -3>>, <<3, 4>>, <<0, 0>>}', Amounts='{<<2>>, <<-3, 1>>, <<-1>>, <<-20>>, <<0, 4>>, <<5, -2>>}',
           Maps=MAPS, MaxObjs=12, Depth=30, Lim=400, Sample='TRUE')


class World:
    def __init__(self, variant):
        from x7.geom import geom
        from x7.geom.transform import Transform
        self.g = geom
        self.T = Transform
        self.u = variant.get('unit', 1)
        self.rel = variant.get('rel', False)
        self.o = []
        self.exact = True

    def pt(self, x, y):
        if self.rel:
            return self.g.PointRelative(x * self.u - 3 * self.u, y * self.u + self.u, self.g.Point(3 * self.u, -self.u))
        return self.g.Point(x * self.u, y * self.u)

    def run(self, beh):
        for n, s in enumerate(beh):
            try:
                self.step(s)
                self.observe(s)
            except Mismatch as e:
                raise Mismatch('step %d %s%s: %s' % (n + 1, s['op'], s['a'], e))
        return len(beh)

    def step(self, s):
        B, o, op, a, u = self.g.BBox, self.o, s['op'], s['a'], self.u
        c = [x * u for x in a]
        new = None
        if op == 'init':
            for b in s['o']:
                o.append(B(*[x * u for x in b]) if b else B(None))
        elif op == 'none':
            new = B(None)
        elif op == 'tuple':
            new = B(tuple(c))
        elif op == 'four':
            new = B(*c)
        elif op == 'points':
            new = B(self.pt(a[0], a[1]), self.pt(a[2], a[3]))
        elif op == 'copy':
            new = o[a[0] - 1].copy()
        elif op == '+':
            new = o[a[0] - 1] + o[a[1] - 1]
            # grow by the corners gives the same box
            if s['o'][a[0] - 1] and s['o'][a[1] - 1]:
                g = o[a[0] - 1].copy()
                for p in (o[a[1] - 1].p1, o[a[1] - 1].p2):
                    ensure(g.grow(p) is None, 'grow returns something')
                ensure(g == new, 'growing by the corners gives', g, 'but + gives', new)
        elif op == 'intersection':
            new = o[a[0] - 1].intersection(o[a[1] - 1])
        elif op == 'expand':
            new = o[a[0] - 1].expand(*c[1:])
        elif op == 'transformed':
            t = self.T((a[1], a[2], a[3] * u, a[4], a[5], a[6] * u))
            before = t.as_6tuple()
            new = o[a[0] - 1].transformed(t)
            ensure(t.as_6tuple() == before, 'transformed() changed the transform')
        elif op == 'round':
            if u == 1:
                new = round(o[a[0] - 1], -1)
            else:
                new = B(*[x * u for x in s['o'][-1]])
        elif op == 'grow':
            p = self.pt(a[1], a[2])
            o[a[0] - 1].grow(p)
            ensure(p.xy() == self.pt(a[1], a[2]).xy(), 'grow moved the point')
        elif op == 'set+sort':
            o[a[0] - 1][a[1] - 1] = a[2] * u
            ensure(o[a[0] - 1][a[1] - 1] == a[2] * u, 'item assignment')
            o[a[0] - 1].sort()
        elif op == 'pair':
            p, q = o[a[0] - 1], o[a[1] - 1]
            r = s['r']
            if self.exact:
                ensure(bool(p == q) == bool(r[0]) and bool(p != q) != bool(r[0]), '%s == %s' % (p, q))
                for name, w in zip(('contains', 'overlaps', 'touches_side', 'touches'), r[1:]):
                    fn = getattr(p, name)
                    if w == -1:
                        raises(ValueError, fn, q)
                    else:
                        ensure(bool(fn(q)) == bool(w), '%s.%s(%s) is %s' % (p, name, q, fn(q)))
        elif op == 'point':
            p = o[a[0] - 1]
            t = self.pt(a[1], a[2])
            if self.exact:
                ensure(bool(p.contains_pt(t)) == bool(s['r'][0]), '%s.contains_pt(%s)' % (p, t))
                ensure(bool(p.touches_pt(t)) == bool(s['r'][1]), '%s.touches_pt(%s)' % (p, t))
        else:
            raise RuntimeError(op)
        if new is not None:
            ensure(type(new) is B, op, 'returned', type(new))
            ensure(not any(new is x for x in o), op, 'returned an existing box')
            o.append(new)

    def observe(self, s):
        g, u = self.g, self.u
        ensure(len(self.o) == len(s['o']), 'box count')
        for i, (x, w) in enumerate(zip(self.o, s['o'])):
            what = 'box %d (%s)' % (i + 1, w)
            if not w:
                ensure(x.as_tuple() == (None,) * 4 and x.is_none and x.is_empty, what, 'is', x)
                ensure((x.width, x.height, x.area(), tuple(x.size())) == (0, 0, 0, (0, 0)), what, 'size')
                for c in ('p1', 'p2', 'pll', 'plh', 'phl', 'phh', 'center'):
                    raises(ValueError, getattr, x, c)
                ensure(x == g.BBox(None), what, '== BBox(None)')
                continue
            xl, yl, xh, yh = [v * u for v in w]
            m = max(abs(xl), abs(yl), abs(xh), abs(yh), u)
            same = (lambda p, q: p == q) if self.exact else (lambda p, q: near(p, q, m))
            for name, got in (('as_tuple', x.as_tuple()), ('iteration', tuple(x)), ('items', tuple(x[k] for k in range(4))),
                              ('attributes', (x.xl, x.yl, x.xh, x.yh))):
                ensure(all(same(p, q) for p, q in zip(got, (xl, yl, xh, yh))) and len(got) == 4, what, name, 'is', got)
            ensure(not x.is_none, what, 'is none')
            if self.exact:
                ensure(bool(x.is_empty) == (xl == xh or yl == yh), what, 'is_empty')
            ensure(near(x.width, xh - xl, m) and near(x.height, yh - yl, m), what, 'width/height', x.width, x.height)
            ensure(tuple(x.size()) == (x.width, x.height) and near(x.area(), (xh - xl) * (yh - yl), m * m), what, 'size/area')
            for name, (cx, cy) in dict(p1=(xl, yl), p2=(xh, yh), pll=(xl, yl), plh=(xl, yh), phl=(xh, yl), phh=(xh, yh),
                                       center=((xl + xh) / 2, (yl + yh) / 2)).items():
                p = getattr(x, name)
                ensure(type(p) is g.Point and near(p.x, cx, m) and near(p.y, cy, m), what, name, 'is', p)
            ensure(eval(repr(x), {'BBox': g.BBox}) == x, what, 'repr')


def replay(beh, variant):
    return World(variant).run(beh)


VARS = [dict(unit=1), dict(unit=0.25, rel=True), dict(unit=1024, rel=True), dict(unit=2.0 ** -20), dict(unit=-1)]


def c06(ctx):
    n = ctx.scale(3, 4)
    p = ctx.mc('BBoxSys', cfg(constants=dict(MC, Corners=GRID % n, Depth=2), init='PairInit', next='PairNext', invariants=['Sorted', 'Meaning'],
                              action_constraint='EmitStep'), name='BBoxSys, every pair on a grid', workers=4)
    b = ctx.mc('BBoxSys', cfg(constants=dict(MC, Depth=ctx.scale(3, 4), MaxObjs=ctx.scale(3, 4)), invariants=['Sorted'], properties=['OnlyChanges'], view='View', action_constraint='EmitStep'))
    s = ctx.sim('BBoxSys', cfg(constants=SIM, invariants=['Sorted', 'EmitFull']), ctx.scale(3000, 60000), 31)
    ctx.count_ops(b + s + p)
    ctx.need_ops('none', 'tuple', 'four', 'points', 'copy', '+', 'intersection', 'expand', 'transformed', 'round', 'grow', 'set+sort', 'pair', 'point')
    ctx.replay('every pair on a grid', p, replay, VARS[:2])
    ctx.replay('small model, every transition', b, replay, VARS[:2])
    ctx.replay('random walks', s, replay, VARS[:4], each=False)
