"""C08, C09, C10: BezSys.tla and AddOneTrace.tla against x7.geom.bezier and ElemCurve"""
import json
import math
import re
from fractions import Fraction as F

from .core import ensure, near, near_xy, Mismatch
from .tlc import cfg, TlcError

KINDS = '{"smooth", "very-smooth", "sharp"}'
MAPS_S = '{<<1, 0, 3, 0, 1, -2, 1>>, <<0, -2, 1, 1, 0, 4, 1>>}'
MAPS = ('{<<1, 0, 0, 0, 1, 0, 1>>, <<1, 0, 3, 0, 1, -2, 1>>, <<0, -2, 1, 1, 0, 4, 1>>, <<3, -4, 0, 4, 3, 5, 5>>, <<2, 0, 0, 0, 1, 0, 2>>, '
        '<<1, 1, 0, 0, -1, 7, 1>>, <<-1, 2, 4, 3, 1, 0, 2>>}')
MC = dict(Cs='{-1, 2}', Ds='{0, 3}', Kinds='{"smooth"}', Lens='{1, 2}', Ts='{<<1, 2>>, <<1, 3>>}', Maps=MAPS_S, Warps='{<<1, 0, 2>>}', Steps='{1, 3}',
          MaxObjs=2, Depth=2, LimN=30000, LimQ=3000, Sample='FALSE')
SIM = dict(Cs='-9..9', Ds='-6..6', Kinds=KINDS, Lens='1..5', Ts='{<<1, 2>>, <<1, 3>>, <<1, 4>>, <<3, 4>>, <<2, 3>>, <<0, 1>>, <<1, 1>>, <<3, 8>>}', Maps=MAPS,
           Warps='{<<1, 0, 0>>, <<0, 1, -1>>, <<1, -1, 2>>}', Steps='{1, 2, 3, 4, 5, 7, 10, 20}', MaxObjs=8, Depth=16, LimN=400000, LimQ=40000, Sample='TRUE')


class World:
    def __init__(self, variant):
        from x7.geom import geom, bezier, transform, model, drawing, colors
        from PIL import Image
        self.g, self.b, self.t, self.m = geom, bezier, transform, model
        self.u = variant.get('unit', 1)
        self.rel = variant.get('rel', False)
        self.pb = colors.PenBrush('red')
        self.image = Image.new('RGBA', (4, 4))
        self.DC = drawing.DrawingContext
        self.o = []

    def run(self, beh):
        for n, s in enumerate(beh):
            try:
                self.step(s)
                self.observe(s)
            except Mismatch as e:
                raise Mismatch('step %d %s%s: %s' % (n + 1, s['op'], s['a'], e))
        return len(beh)

    def cp(self, q, p, k):
        u, g = self.u, self.g
        cx, cy, lx, ly, rx, ry = [v / q * u if q != 1 else v * u for v in p]
        c = g.PointRelative(cx - 2 * u, cy + u, g.Point(2 * u, -u)) if self.rel else g.Point(cx, cy)
        return self.b.ControlPoint(c, g.Vector(lx, ly), g.Vector(rx, ry), k)

    def tr(self, m):
        q = m[6]
        return self.t.Transform((m[0] / q, m[1] / q, m[2] / q * self.u, m[3] / q, m[4] / q, m[5] / q * self.u))

    def warp(self, w):
        u = self.u

        class Warp(self.t.Transformer):
            LINEAR = False

            def transform_np_pts(self, np_pts):
                out = []
                for x, y in zip(np_pts[0], np_pts[1]):
                    x, y = x / u, y / u
                    out.append(((x + w[0] * y * y + w[1] * x * y) * u, (y + w[2] * x * x) * u, 1))
                return out
        return Warp()

    def step(self, s):
        b, g, o, op, a, u, r = self.b, self.g, self.o, s['op'], s['a'], self.u, s['r']
        CP = b.ControlPoint
        new = None
        if op == 'curve':
            c = s['o'][-1]
            new = [self.cp(c['q'], p, k) for p, k in zip(c['p'], c['k'])]
        elif op == 'split':
            src = o[a[0] - 1]
            i, n = a[1] - 1, len(src)
            p, q = src[i], src[(i + 1) % n]
            t = a[2] / a[3]
            res = b.bez_split(p, q) if t == 0.5 else b.bez_split(p, q, t)
            ensure(len(res) == 3 and all(type(x) is CP for x in res), 'bez_split returned', res)
            ensure(not any(x is y for x in res for y in (p, q)), 'bez_split returned one of the original control points')
            l, m, rr = res
            new = [CP(x.c, x.dl, x.dr, x.kind) for x in src]
            if n == 1:
                new = [CP(l.c, rr.dl, l.dr, l.kind), m]
            else:
                new[i], new[(i + 1) % n] = l, rr
                new.insert(i + 1, m)
        elif op == 'reverse':
            new = CP.reverse_list(o[a[0] - 1])
            ensure(CP.reverse_list(new) == o[a[0] - 1], 'reversing twice is not the original')
        elif op == 'flip':
            new = [x.reversed() for x in o[a[0] - 1]]
            ensure([x.reversed() for x in new] == o[a[0] - 1], 'reversing twice is not the original')
        elif op in ('copy', 'fixed'):
            new = [getattr(x, op)() for x in o[a[0] - 1]]
            if op == 'copy':
                ensure(new == o[a[0] - 1], 'copy is not equal to the original')
                ensure(all(x.close(y) for x, y in zip(new, o[a[0] - 1])), 'copy is not close to the original')
            ensure(all(type(x.c) is (type(y.c) if op == 'copy' else g.Point) for x, y in zip(new, o[a[0] - 1])), op, 'point kind')
        elif op == 'map':
            t = self.tr(a[1:])
            before = t.as_6tuple()
            new = [x.transform(t) for x in o[a[0] - 1]]
            ensure(t.as_6tuple() == before, 'transform() changed the transform')
        elif op == 'warp':
            new = [x.transform(self.warp(a[1:])) for x in o[a[0] - 1]]
        elif op == 'warp each':
            self.warp_each(s)
        elif op == 'poke':
            x = o[a[0] - 1][a[1] - 1]
            p = {1: x.c, 3: x.dl, 5: x.dr}[a[2]]
            if isinstance(p, g.PointRelative):
                x.c = p = g.Point(0, 0)
            p.setxy(a[3] * u, -a[3] * u)
        elif op == 'kind':
            o[a[0] - 1][a[1] - 1].kind = a[2]
        elif op == 'restore':
            x, y = o[a[0] - 1][a[1] - 1], o[a[2] - 1][a[3] - 1]
            x.restore(y)
            ensure(x == y, 'restored control point is not equal to its source')
        elif op == 'bez':
            self.bez(s)
        elif op == 'path':
            c = o[a[0] - 1]
            t = self.tr(a[2:])
            got = b.bez_path(t, c, s['o'][a[0] - 1]['cl'], a[1])
            self.same_path(got, r[0], r[1], 'bez_path')
        elif op == 'paths':
            self.paths(s)
        else:
            raise RuntimeError(op)
        if new is not None:
            for x in new:
                ensure(type(x) is CP, op, 'returned', x)
                ensure(op == 'split' or not any(x is y for c in o for y in c), op, 'returned an existing control point')
            o.append(new)

    def warp_each(self, s):
        a, r, u = s['a'], s['r'], self.u
        w = self.warp(a[1:])
        for x, p in zip(self.o[a[0] - 1], r):
            if x.kind == 'smooth' and (p[4] - p[2], p[5] - p[3]) == (0, 0) and (p[2], p[3]) != (0, 0):
                continue        # no common direction
            got = x.transform(w)
            ensure(got.kind == x.kind, 'kind changed to', got.kind)
            c, dl, dr = (p[0], p[1]), (p[2], p[3]), (p[4], p[5])
            if x.kind == 'very-smooth':
                dr = ((dr[0] - dl[0]) / 2, (dr[1] - dl[1]) / 2)
                dl = (-dr[0], -dr[1])
            elif x.kind == 'smooth' and (dl != (0, 0) or dr != (0, 0)):
                d = (dr[0] - dl[0], dr[1] - dl[1])
                n = math.hypot(*d)
                ll, lr = math.hypot(*dl), math.hypot(*dr)
                dr = (d[0] / n * lr, d[1] / n * lr)
                dl = (-d[0] / n * ll, -d[1] / n * ll)
            m = 1e5 * u
            for name, g, want in (('c', got.c, c), ('dl', got.dl, dl), ('dr', got.dr, dr)):
                ensure(near_xy(g.xy(), (want[0] * u, want[1] * u), m), '%s of warped %s is %s, specified %s (unit %s)' % (name, x, g, want, u))

    def same_path(self, got, q, pts, what):
        ensure(len(got) == 2 * len(pts), what, 'has', len(got) / 2, 'points, specified', len(pts))
        m = max(abs(v) for p in pts for v in p) / q * self.u + self.u
        for i, p in enumerate(pts):
            ensure(near_xy(got[2 * i:2 * i + 2], (p[0] / q * self.u, p[1] / q * self.u), m), what, 'point', i, 'is', got[2 * i:2 * i + 2],
                   'specified', (p[0] / q * self.u, p[1] / q * self.u))

    def bez(self, s):
        b, a, r = self.b, s['a'], s['r']
        c = self.o[a[0] - 1]
        x, y = c[a[1] - 1], c[a[1] % len(c)]
        pts = [x.c, x.r, y.l, y.c]
        xys = [p.xy() for p in pts]
        n = a[2]
        first = None
        for raw in (pts, xys, [pts[0], xys[1], xys[2], pts[3]]):
            got = b.bez(raw, steps=n)
            self.same_path(got, r[0], r[1], 'bez')
            ensure(tuple(got[:2]) == tuple(xys[0]) and tuple(got[-2:]) == tuple(xys[3]), 'bez does not start and end exactly at the ends')
            pairs = b.bez(raw, n, as_xy=True)
            ensure([tuple(p) for p in pairs] == [tuple(got[i:i + 2]) for i in range(0, len(got), 2)], 'as_xy form differs')
            ensure(first is None or list(got) == first, 'forms of the input give different results')
            first = list(got)
        if n == 20:
            ensure(len(b.bez(pts)) == 2 * 81, 'default number of steps')

    def paths(self, s):
        a, r, m = s['a'], s['r'], self.m
        cl = s['o'][a[0] - 1]['cl']
        n, m1, m2 = a[1], a[2], a[3]
        x1, x2 = self.tr(m1), self.tr(m2)
        dc = self.DC(self.image, x2)
        if n == 10:
            dc.show_cps = True
        else:
            dc.points_per_curve = n
        e = m.ElemCurve('e', self.pb, self.o[a[0] - 1], closed=cl, xform=x1)
        before = (x1.as_6tuple(), x2.as_6tuple())
        res = e.paths(dc)
        ensure(len(res) == 1 and res[0].closed is cl and res[0].penbrush == self.pb, 'paths() returned', res)
        self.same_path([v for p in res[0].points.tolist() for v in p], r[0], r[1], 'paths()')
        cps = e.control_paths(dc)
        ensure(len(cps) == 1 and len(cps[0].points) == len(r[3]), 'control_paths() returned', cps)
        for x, p in zip(cps[0].points, r[3]):
            self.same_cp(x, r[2], p, 'control path')
        ensure((x1.as_6tuple(), dc.matrix.as_6tuple()) == before, 'drawing changed a transform')

    def same_cp(self, x, q, p, what):
        u, g = self.u, self.g
        w = [v / q * u for v in p]
        m = max(map(abs, w)) + u
        for name, want in (('c', w[0:2]), ('dl', w[2:4]), ('dr', w[4:6]), ('l', (w[0] + w[2], w[1] + w[3])), ('r', (w[0] + w[4], w[1] + w[5]))):
            v = getattr(x, name)
            ensure(near_xy(v.xy(), want, m), what, name, 'is', v, 'specified', want)
        ensure(isinstance(x.c, g.BasePoint) and isinstance(x.dl, g.Vector) and isinstance(x.dr, g.Vector), what, 'has wrong kinds', x)
        xs, ys = (w[0], w[0] + w[2], w[0] + w[4]), (w[1], w[1] + w[3], w[1] + w[5])
        bb = x.bbox()
        ensure(all(near(i, j, m) for i, j in zip(bb.as_tuple(), (min(xs), min(ys), max(xs), max(ys)))), what, 'bbox is', bb)

    def observe(self, s):
        ensure(len(self.o) == len(s['o']), 'curve count')
        for i, (c, w) in enumerate(zip(self.o, s['o'])):
            ensure(len(c) == len(w['p']), 'curve %d has %d control points, specified %d' % (i + 1, len(c), len(w['p'])))
            for j, (x, p, k) in enumerate(zip(c, w['p'], w['k'])):
                self.same_cp(x, w['q'], p, 'curve %d control point %d' % (i + 1, j + 1))
                ensure(x.kind == k, 'curve %d control point %d has kind %r, specified %r' % (i + 1, j + 1, x.kind, k))


def replay(beh, variant):
    return World(variant).run(beh)


VARS = [dict(unit=1), dict(unit=0.25, rel=True), dict(unit=1 / 3), dict(unit=1000, rel=True), dict(unit=0.001)]


# -- adding control points: recorded runs are validated against AddOneTrace.tla ------------------------------------------------

def record_add_one(case):
    """Run add_one on the real code; the trace in whole numbers"""
    from x7.geom import geom, bezier, model, colors
    c, n, rel = case['c'], case['n'], case['rel']
    q = 8 ** n * c['q']
    cps = []
    for p, k in zip(c['p'], c['k']):
        x, y = p[0] / c['q'], p[1] / c['q']
        ctr = geom.PointRelative(x - 4, y + 1, geom.Point(4, -1)) if rel else geom.Point(x, y)
        cps.append(bezier.ControlPoint(ctr, geom.Vector(p[2] / c['q'], p[3] / c['q']), geom.Vector(p[4] / c['q'], p[5] / c['q']), k))
    e = model.ElemCurve('e', colors.PenBrush('red'), cps, closed=c['cl'], xform=None)

    def state():
        out = []
        for x in e.control_points:
            row = []
            for v in x.c.xy() + x.dl.xy() + x.dr.xy():
                f = F(float(v)) * q
                ensure(f.denominator == 1, 'coordinate %r is not on the dyadic grid a halving produces' % v)
                row.append(int(f))
            out.append(row + [1 if x.kind == 'sharp' else 0])
        return out
    states = [state()]
    for _ in range(n):
        e.add_one()
        states.append(state())
    return dict(cl=c['cl'], s=states, case=case)


def add_one(ctx, behaviours):
    from .tlc import tlc
    cases = []
    seen = set()
    for b in behaviours:
        for c in (b[-1]['o'] or []):
            if c['q'] in (1, 2, 4, 8) and (len(c['p']) > 1 or c['cl']) and json.dumps(c) not in seen:
                if max(abs(v) for p in c['p'] for v in p) > 60 * c['q'] or len(c['p']) > 8:
                    continue
                seen.add(json.dumps(c))
                cases.append(c)
    cases = cases[:ctx.scale(1500, 20000)]
    traces = []
    for i, c in enumerate(cases):
        n = 1 + i % 4
        case = dict(c=c, n=n, rel=bool(i % 3 == 0))
        try:
            traces.append(record_add_one(case))
        except Mismatch as e:
            ctx.fail('add_one', str(e), case)
        except Exception as e:
            ctx.fail('add_one', 'unexpected %s: %s' % (type(e).__name__, e), case)
    if not traces:
        return
    # TLC decides whether the specification explains every recorded run
    text = ''.join(json.dumps(dict(cl=t['cl'], s=t['s'])) + '\n' for t in traces)
    try:
        run = tlc('AddOneTrace', cfg(constants=dict(Ts='{<<1, 2>>}'), invariants=['Explained']), workers=4, files={'traces.ndjson': text})
        ctx.took(run, 'AddOneTrace')
        ctx.validated += len(traces)
    except TlcError as e:
        m = re.search(r'Explained is violated.*i = (\d+)', str(e), re.S)
        if not m:
            raise
        t = traces[int(m.group(1)) - 1]
        ctx.fail('add_one trace', 'adding control points to %s gives %s, which no splitting of one segment explains' % (t['s'][0], t['s'][1:]), t['case'])
    ctx.cover['add_one traces validated by TLC'] = len(traces)


def c08(ctx):
    b = ctx.mc('BezSys', cfg(constants=MC, init='Init', next='SplitNext', invariants=['Traces', 'Twice'], properties=['OnlyChanges'], view='View', action_constraint='EmitStep'))
    s = ctx.sim('BezSys', cfg(constants=SIM, init='Init', next='SplitNext', invariants=['Traces', 'EmitFull']), ctx.scale(2500, 60000), 17)
    ctx.count_ops(b + s)
    ctx.need_ops('curve', 'split', 'reverse', 'copy', 'map', 'poke')
    ctx.replay('small model, every transition', b, replay, VARS[:2])
    ctx.replay('random walks', s, replay, VARS, each=False)
    add_one(ctx, s + b)


def c09(ctx):
    b = ctx.mc('BezSys', cfg(constants=MC, init='Init', next='FlatNext', invariants=['PathShape'], view='View', action_constraint='EmitStep'))
    s = ctx.sim('BezSys', cfg(constants=SIM, init='Init', next='FlatNext', invariants=['PathShape', 'EmitFull']), ctx.scale(2500, 60000), 17)
    ctx.count_ops(b + s)
    ctx.need_ops('curve', 'bez', 'path', 'paths', 'split', 'map', 'reverse', 'poke')
    ctx.replay('small model, every transition', b, replay, VARS[:2])
    ctx.replay('random walks', s, replay, VARS, each=False)


def c10(ctx):
    b = ctx.mc('BezSys', cfg(constants=dict(MC, Kinds=KINDS, Lens='{1}', Depth=ctx.scale(3, 4), MaxObjs=3), init='Init', next='CpNext', invariants=['Twice'], properties=['OnlyChanges'],
                             view='View', action_constraint='EmitStep'))
    s = ctx.sim('BezSys', cfg(constants=SIM, init='Init', next='CpNext', invariants=['Twice', 'EmitFull']), ctx.scale(3000, 60000), 17)
    ctx.count_ops(b + s)
    ctx.need_ops('curve', 'reverse', 'flip', 'copy', 'fixed', 'map', 'warp', 'warp each', 'poke', 'kind', 'restore', 'split')
    ctx.replay('small model, every transition', b, replay, VARS[:2])
    ctx.replay('random walks', s, replay, VARS, each=False)
