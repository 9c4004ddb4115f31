"""C04, C05: GeomSys.tla and ParsePts.tla against the points and vectors of x7.geom.geom"""
import math
from fractions import Fraction as F

from .core import ensure, near, near_xy, raises, Mismatch
from .tlc import cfg

MC = dict(Coords='{<<1, -2>>, <<4, 3>>}', Numbers='{<<1, 2>>, <<-3, 1>>}', Rots='{<<0, 1, 1>>}', MaxObjs=4, Depth=3, LimN=400, LimQ=20, Sample='FALSE')
SIM = dict(Coords='{<<1, -2>>, <<4, 3>>, <<0, 0>>, <<-5, 0>>, <<0, 7>>, <<3, -4>>, <<10, 10>>, <<-1, -8>>}',
           Numbers='{<<1, 2>>, <<-3, 1>>, <<2, 1>>, <<-1, 1>>, <<2, 3>>, <<1, 1>>, <<-5, 4>>}',
           Rots='{<<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<1, 0, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>}',
           MaxObjs=14, Depth=30, LimN=3000, LimQ=120, Sample='TRUE')

EXC = {'TypeError': TypeError, 'ZeroDivisionError': ZeroDivisionError, 'NotImplementedError': NotImplementedError}


def dyadic(fr):
    d = fr.denominator
    return d & (d - 1) == 0


class World:
    def __init__(self, variant):
        from x7.geom import geom
        self.g = geom
        self.u = variant.get('unit', 1)
        self.wind = variant.get('wind', 0)
        self.eager = variant.get('eager', True)
        self.o = []
        self.inexact = []
        self.dy = self.u == int(self.u)

    def num(self, n):
        return n[0] if n[1] == 1 and self.u == int(self.u) else n[0] / n[1]

    def xy(self, c):
        return c[0] * self.u, c[1] * self.u

    def run(self, beh):
        for n, s in enumerate(beh):
            try:
                self.step(s)
                if self.eager or n == len(beh) - 1:
                    self.observe(s)
            except Mismatch as e:
                raise Mismatch('step %d %s%s: %s' % (n + 1, s['op'], s['a'], e))
        return len(beh)

    def step(self, s):
        g, o, op, a = self.g, self.o, s['op'], s['a']

        def ob(k):
            return o[a[k] - 1]
        new = None
        taint = False
        # makers
        if op == 'Point':
            new = g.Point(*self.xy(a[0]))
        elif op == 'Vector':
            new = g.Vector() if tuple(a[0]) == (0, 0) and self.wind else g.Vector(*self.xy(a[0]))
        elif op == 'PointRelative':
            new = g.PointRelative(*self.xy(a[0]), ob(1))
        elif op == 'fromxy':
            new = g.PointRelative.fromxy(*self.xy(a[0]), ob(1))
        elif op == 'PointCalc':
            new = g.PointCalc(ob(0), self.num(a[1]))
        elif op == 'VectorRelative':
            new = g.VectorRelative(ob(0), ob(1))
        # algebra
        elif op in ('p-p', 'p-v', 'v-v'):
            new = ob(0) - ob(1)
        elif op in ('p+v', 'v+p', 'v+v'):
            new = ob(0) + ob(1)
        elif op == 'v*n':
            new = ob(0) * self.num(a[1])
        elif op == 'n*v':
            new = self.num(a[0]) * ob(1)
        elif op == 'v/n':
            new = ob(0) / self.num(a[1])
        elif op in ('-p', '-v'):
            new = -ob(0)
        elif op == 'mid':
            new = ob(0).mid(ob(1))
        elif op == 'fixed':
            new = ob(0).fixed()
        elif op == 'p.v':
            new = ob(0).v
        elif op == 'v.p':
            new = ob(0).p
        elif op == 'normal':
            new = ob(0).normal()
        elif op == 'rotate':
            taint = True
            new = ob(0).rotate(math.degrees(math.atan2(a[1][1], a[1][0])) + 360 * self.wind)
        elif op == 'unit':
            taint = True
            new = ob(0).unit()
            ensure(type(new) is g.Vector and near(new.length(), 1), 'unit() is', new)
            new = new * self.u
        elif op == 'round':
            # scaled coordinates are rounded to the matching digit
            digits = {1: 0, 1000: -3, 10: -1, 0.001: 3, 0.1: 1}[self.u]
            taint = digits > 0
            new = ob(0).round(digits) if self.wind else round(ob(0), digits)
            if s['o'][a[0] - 1]['k'] == 'W':
                self.o += [None, None]
                self.inexact += [taint, taint]
        elif op == 'copy':
            new = ob(0).copy()
            if s['o'][a[0] - 1]['k'] == 'W':
                self.o += [None, None]
                self.inexact += [True, True]
        # moves
        elif op == 'setxy':
            ob(0).setxy(*self.xy(a[1]))
            self.inexact[a[0] - 1] = False
        elif op in ('set', 'restore'):
            getattr(ob(0), op)(ob(1))
            self.inexact[a[0] - 1] = self.inexact[a[1] - 1]
        elif op == 'dxdy':
            ob(0).dx, ob(0).dy = self.xy(a[1])
        elif op == 'rebase':
            ob(0).base = ob(1)
        elif op == 'scale':
            ob(0).scale = self.num(a[1])
        # questions
        elif op == 'dot':
            self.scalar(ob(0).dot(ob(1)), F(s['r'][0], s['r'][1]), 2, s)
        elif op == 'cross':
            self.scalar(ob(0).cross(ob(1)), F(s['r'][0], s['r'][1]), 2, s)
        elif op == 'length':
            w = math.sqrt(F(s['r'][0], s['r'][1])) * self.u
            ensure(near(ob(0).length(), w, self.mag(s)), 'length is', ob(0).length(), 'specified', w)
        elif op == '==':
            if not self.inexact[a[0] - 1] and not self.inexact[a[1] - 1] and self.all_dyadic(s):
                r = ob(0) == ob(1)
                ensure(bool(r) == bool(s['r'][0]), '%r == %r is %r' % (ob(0), ob(1), r))
                ensure(bool(ob(0) != ob(1)) != bool(s['r'][0]), '%r != %r' % (ob(0), ob(1)))
        elif op == 'close':
            if self.u >= 1 and self.u <= 10:
                r = ob(0).close(ob(1))
                ensure(bool(r) == bool(s['r'][0]), '%r.close(%r) is %r' % (ob(0), ob(1), r))
                r = ob(0).close(ob(1), 1e9)
                ensure(bool(r), '%r.close(%r, 1e9) is %r' % (ob(0), ob(1), r))
        elif op == 'unit of zero':
            if not self.inexact[a[0] - 1] and self.all_dyadic(s):
                raises(ZeroDivisionError, ob(0).unit)
        elif op == 'p+p':
            raises(TypeError, lambda: ob(0) + ob(1))
        elif op == 'p*n':
            raises(TypeError, lambda: ob(0) * self.num(a[1]))
            raises(TypeError, lambda: self.num(a[1]) * ob(0))
        elif op == 'v-p':
            raises(TypeError, lambda: ob(0) - ob(1))
        elif op == 'o+n':
            raises(TypeError, lambda: ob(0) + self.num(a[1]))
            raises(TypeError, lambda: self.num(a[1]) + ob(0))
        elif op == 'setxy of relative':
            raises(NotImplementedError, ob(0).setxy, *self.xy(a[1]))
            raises(NotImplementedError, ob(0).set, g.Vector(1, 2))
        else:
            raise RuntimeError(op)
        if new is not None:
            ids = [x for x in a if isinstance(x, int)]
            ensure(not any(new is x for x in self.o), op, 'returned an existing object instead of a new one')
            self.o.append(new)
            self.inexact.append(taint or any(self.inexact[i - 1] for i in ids))

    def all_dyadic(self, s):
        # every value exactly representable, so that equality is exact
        return self.dy and all(dyadic(F(c, o['v'][2])) for o in s['o'] for c in o['v'][:2])

    def mag(self, s):
        m = 10 * self.u
        for o in s['o']:
            m = max(m, abs(o['v'][0] / o['v'][2]) * self.u, abs(o['v'][1] / o['v'][2]) * self.u)
        return m * 10

    def scalar(self, got, want, power, s):
        w = float(want) * self.u ** power
        ensure(near(got, w, self.mag(s) ** power), 'result', got, 'specified', w)

    KIND = {'P': 'Point', 'R': 'PointRelative', 'C': 'PointCalc', 'V': 'Vector', 'W': 'VectorRelative'}

    def observe(self, s):
        ensure(len(self.o) == len(s['o']), 'object count')
        mag = self.mag(s)
        for i, (x, spec) in enumerate(zip(self.o, s['o'])):
            if spec['h']:
                continue
            w = (spec['v'][0] / spec['v'][2] * self.u, spec['v'][1] / spec['v'][2] * self.u)
            ensure(type(x) is getattr(self.g, self.KIND[spec['k']]), 'object %d is a %s, specified %s' % (i + 1, type(x).__name__, self.KIND[spec['k']]))
            for what, got in (('xy()', x.xy()), ('(x, y)', (x.x, x.y)), ('iteration', tuple(x))):
                ensure(near_xy(got, w, mag), 'object %d: %s of %r is %s, specified %s' % (i + 1, what, x, got, w))
            if spec['k'] in 'PRC':
                v = x.v
                ensure(type(v) is self.g.Vector and near_xy(v.xy(), w, mag), 'object %d: .v is %r' % (i + 1, v))
            else:
                p = x.p
                ensure(type(p) is self.g.Point and near_xy(p.xy(), w, mag), 'object %d: .p is %r' % (i + 1, p))
                ensure(near(x.length(), math.hypot(*w), mag), 'object %d: length is %r' % (i + 1, x.length()))
                if not self.inexact[i] and self.all_dyadic(s):
                    ensure(bool(x) == (w != (0, 0)), 'object %d: bool(%r)' % (i + 1, x))
                if math.hypot(*w) > 1e-6 * mag:
                    d = (x.angle() - math.degrees(math.atan2(w[1], w[0]))) % 360
                    ensure(min(d, 360 - d) < 1e-4, 'object %d: angle of %r is %r' % (i + 1, x, x.angle()))
                    ensure(-180.0001 <= x.angle() <= 180.0001, 'angle out of range', x.angle())


def replay(beh, variant):
    return World(variant).run(beh)


def replay_parse(case, variant):
    from x7.geom.geom import BasePoint, Point, PointRelative, Vector
    base = Point(7, 8)
    vals = []
    for i, k in enumerate(case['t']):
        vals.append({'int': 10 + i, 'float': 0.5 + i, 'point': Point(i, -i), 'rel': PointRelative(i, 1, base), 'pair': (i, i + 0.25),
                     'triple': (i, 2, 'any'), 'one': (i,), 'four': (1, 2, 3, 4), 'list': [1, 2], 'str': 'ab', 'vec': Vector(1, 2),
                     'none': None}[k])
    want = []
    failed = False
    for e in case['r']:
        if e['k'] == 'error':
            failed = True
        elif e['k'] == 'two':
            want.append((vals[e['i'] - 1], vals[e['i']]))
        else:
            want.append(vals[e['i'] - 1])
    src = {0: vals, 1: tuple(vals), 2: iter(vals)}[variant]
    kw = {} if not case['thr'] and variant == 0 else {'allow_thruples': case['thr']}
    if failed:
        raises(ValueError, BasePoint.parse, src, **kw)
    else:
        got = BasePoint.parse(src, **kw)
        ensure(isinstance(got, list) and len(got) == len(want) and all(type(g) is type(w) and g == w for g, w in zip(got, want)),
               'parse(%r) gives %r, specified %r' % (vals, got, want))
    return 1


INVS = ['Acyclic', 'Coherent']
VARS = [dict(unit=1, wind=0), dict(unit=1000, wind=1), dict(unit=0.001, wind=-1), dict(unit=0.1, wind=0), dict(unit=10, wind=2, eager=False),
        dict(unit=1, wind=1, eager=False)]
MAKE = ['Point', 'Vector', 'PointRelative', 'fromxy', 'PointCalc', 'VectorRelative', 'fixed', 'mid', 'copy', 'setxy', 'set', 'restore',
        'dxdy', 'rebase', 'scale']
ALG = ['p-p', 'p+v', 'v+p', 'p-v', 'v+v', 'v-v', 'v*n', 'n*v', 'v/n', '-p', '-v', 'p.v', 'v.p', 'normal', 'rotate', 'unit', 'unit of zero',
       'round', 'dot', 'cross', 'length', '==', 'close', 'p+p', 'p*n', 'v-p', 'o+n', 'setxy of relative']


def c04(ctx):
    b = ctx.mc('GeomSys', cfg(constants=dict(MC, Numbers='{<<-3, 1>>}', Depth=ctx.scale(3, 4)), init='Init', next='DepNext', invariants=INVS, properties=['OnlyMovesMove'],
                              view='View', action_constraint='EmitStep'))
    s = ctx.sim('GeomSys', cfg(constants=SIM, init='Init', next='DepNext', invariants=INVS + ['EmitFull']), ctx.scale(2500, 60000), 31)
    ctx.count_ops(b + s)
    ctx.need_ops(*MAKE)
    ctx.replay('small model, every transition', b, replay, VARS[:2])
    ctx.replay('random walks', s, replay, VARS, each=False)
    s = ctx.sim('GeomSys', cfg(constants=dict(SIM, Coords='{<<1, -2>>, <<4, 3>>, <<-5, 0>>}', Numbers='{<<-3, 1>>, <<1, 2>>}', Depth=16), init='Init', next='CopyNext', invariants=INVS + ['EmitFull']),
                ctx.scale(3000, 60000), 17)
    ctx.replay('random copies', s, replay, VARS, each=False)


def c05(ctx):
    b = ctx.mc('GeomSys', cfg(constants=dict(MC, Depth=ctx.scale(3, 4)), invariants=INVS, properties=['OnlyMovesMove'], view='View', action_constraint='EmitStep'))
    s = ctx.sim('GeomSys', cfg(constants=SIM, invariants=INVS + ['EmitFull']), ctx.scale(2500, 60000), 31)
    toks = '{"int", "float", "point", "rel", "pair", "triple", "one", "four", "list", "str", "vec", "none"}'
    p = ctx.mc('ParsePts', cfg(constants=dict(Tokens=toks, MaxLen=ctx.scale(3, 4)), invariants=['Covers', 'Emit']))
    ctx.count_ops(b + s)
    ctx.need_ops(*MAKE, *ALG)
    ctx.replay('small model, every transition', b, replay, VARS[:2])
    ctx.replay('random walks', s, replay, VARS, each=False)
    ctx.replay('parse, every token sequence', p, replay_parse, (0, 1, 2))
