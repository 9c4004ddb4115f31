"""C17: AnimSys.tla, C19: FuncSys.tla against x7.geom.anim"""
import math

from .core import ensure, near, near_xy, raises, Mismatch
from .tlc import cfg


def rat(s):
    n, d = (s if isinstance(s, tuple) else (s, 1))
    return '<<%d, %d>>' % (n, d)


def term(k, a='<<>>', s=()):
    return '[k |-> "%s", a |-> %s, s |-> <<%s>>]' % (k, a, ', '.join(map(str, s)))


def curve(*pts):
    return '<<%s>>' % ', '.join('<<%s, %s>>' % (rat(t), rat(v)) for t, v in pts)


def trig(f, n30=0, p=(1, 0, 1), scale=1, shift=0):
    return '<<%s, %d, <<%d, %d, %d>>, %s, %s>>' % (rat(f), n30, *p, rat(scale), rat(shift))


def st(items):
    return '{%s}' % ', '.join(items)


H, Q, E = (1, 2), (1, 4), (1, 8)
CURVES = [curve((0, 0), (H, 1), (1, 0)), curve((0, (-1, 2)), (E, 1), ((5, 8), 0), ((7, 8), 0), (1, (-1, 2))), curve((-1, 3), (Q, -2), (2, 5)),
          curve((H, 7)), curve((0, 1), (1, 1)), curve((Q, 0), (H, (3, 2)), ((3, 4), (3, 2)))]
RAMPS = ['<<%s, %s>>' % (rat(a), rat(b)) for a, b in ((Q, (3, 4)), (0, H), (H, 1), (E, Q), (0, 1), ((1, 3), (2, 3)))]
TRIGS = [trig(1), trig(2, 3), trig(1, 1, scale=H, shift=H), trig(H, -3, scale=3), trig(-1, 6, shift=-1), trig(3, 4), trig(1, 0, (3, 4, 5), 2), trig(2, 9, (5, -12, 13), H, H), trig(1, 12)]
BASIC = [term('id'), term('idxy')] + [term(k, a) for k in ('up', 'down') for a in RAMPS] + [term('interp', c) for c in CURVES] + [term(k, a) for k in ('sin', 'cos', 'sincos') for a in TRIGS]
SCAL = [0, 1, H, Q, (3, 4), E, (7, 8), (1, 3), (2, 3), (1, 6), (1, 12), (5, 12), (-1, 4), -1, (5, 4), 2, (3, 8)]
TIMES = st(['<<%s>>' % rat(t) for t in SCAL] + ['<<%s, %s>>' % (rat(a), rat(b)) for a, b in ((0, 1), (H, Q), (1, (1, 3)), (-1, 2), (H, H), ((3, 4), E))])

FMC = dict(Basic=st(BASIC), Thresholds=st([rat(0), rat(H)]), Times=TIMES, MaxFs=1, Depth=2, Sample='FALSE', Lim=100000)
FMC2 = dict(FMC, Basic=st([term('id'), term('up', RAMPS[0]), term('sin', TRIGS[2])]), Times=st(['<<%s>>' % rat(t) for t in (0, H, Q)]), MaxFs=3, Depth=5)
FSIM = dict(FMC, Thresholds=st([rat(0), rat(H), rat((-1, 2)), rat(1), rat((1, 3))]), MaxFs=9, Depth=30, Sample='TRUE')


class Funcs:
    """Builds the real functions of a term table"""

    def __init__(self, variant):
        from x7.geom.anim import Animation
        self.A = Animation
        self.style = variant.get('style', 0)
        self.fs = []

    def num(self, r):
        n, d = r
        v = n / d
        if self.style == 1 and n % d == 0:
            return n // d
        if self.style == 2:
            import numpy
            return numpy.float64(v)
        return v

    def time(self, t):
        return self.num(t[0]) if len(t) == 1 else tuple(self.num(x) for x in t)

    def make(self, f):
        A, k, a = self.A, f['k'], f['a']
        if k == 'id':
            return A.identity()
        if k == 'idxy':
            return A.identity_xy()
        if k in ('up', 'down'):
            fn = A.ramp_up if k == 'up' else A.ramp_down
            s, e = self.num(a[0]), self.num(a[1])
            return fn() if (s, e) == (0.25, 0.75) and self.style == 1 else fn(s, e) if self.style else fn(start=s, end=e)
        if k == 'interp':
            return A.interpolate([(self.num(t), self.num(v)) for t, v in a])
        if k in ('sin', 'cos', 'sincos'):
            return self.trig(k, a)
        if k == 'xy':
            return A.xy(self.fs[f['s'][0] - 1], self.fs[f['s'][1] - 1])
        if k == 'hide':
            h = self.num(a)
            return A.hide_if(self.fs[f['s'][0] - 1], h) if h or self.style else A.hide_if(self.fs[f['s'][0] - 1])
        g, h = self.fs[f['s'][0] - 1], self.fs[f['s'][1] - 1]
        return lambda t: g(h(t))

    @staticmethod
    def degrees(a):
        return 30 * a[1] + math.degrees(math.atan2(a[2][1], a[2][0]))

    def trig(self, k, a):
        A = self.A
        args = (self.num(a[0]), self.degrees(a), self.num(a[3]), self.num(a[4]))
        if k == 'sincos':
            return A.sin_cos(*args)
        if self.style == 2:
            return A.periodic(math.sin if k == 'sin' else math.cos, *args)
        fn = A.sin if k == 'sin' else A.cos
        if self.style == 1:
            return fn(**{n: v for n, v, d in zip(('frequency', 'offset', 'scale', 'shift'), args, (1, 0, 1, 0)) if v != d})
        return fn(*args)


def play_funcs(beh, variant):
    w = Funcs(variant)
    for k, s in enumerate(beh):
        try:
            if s['op'] == 'new':
                w.fs.append(w.make(s['a']))
            else:
                i, t = s['a']
                got = w.fs[i - 1](w.time(t))
                want = [n / d for n, d in s['v']]
                if not want:
                    ensure(got is None, 'value', got, 'expected None')
                elif len(want) == 1:
                    ensure(not isinstance(got, tuple) and got is not None and near(got, want[0]), 'value', got, 'expected', want[0])
                else:
                    ensure(isinstance(got, tuple) and near_xy(got, want), 'value', got, 'expected', want)
        except Mismatch as e:
            raise Mismatch('step %d %s%s: %s' % (k + 1, s['op'], s['a'], e))
    return len(beh)


def c19(ctx):
    V = [dict(style=0), dict(style=1), dict(style=2)]
    b = ctx.mc('FuncSys', cfg(constants=FMC, invariants=('Laws', 'Meets'), view='View', action_constraint='EmitStep'), name='FuncSys: every function at every time')
    ctx.count_ops(b)
    ctx.replay('every function at every time', b, play_funcs, V)
    b = ctx.mc('FuncSys', cfg(constants=dict(FMC2, Depth=ctx.scale(5, 6)), invariants=('Laws', 'Meets'), view='View', action_constraint='EmitStep'), name='FuncSys: combinations', workers=4, timeout=850)
    ctx.count_ops(b)
    ctx.replay('combinations', b, play_funcs, V, each=False)
    b = ctx.sim('FuncSys', cfg(spec='Walk', constants=FSIM, invariants=('Laws', 'Meets', 'EmitFull')), ctx.scale(3000, 40000), 31, procs=6, heap='2g')
    ctx.count_ops(b)
    for x in b:
        for s in x:
            if s['op'] == 'new':
                ctx.ops[s['a']['k']] = ctx.ops.get(s['a']['k'], 0) + 1
    ctx.replay('random functions and calls', b, play_funcs, V, each=False)
    ctx.need_ops('call', 'id', 'idxy', 'up', 'down', 'interp', 'sin', 'cos', 'sincos', 'xy', 'hide', 'comp')


# ------------------------------------------------------------------------------------------------------- animations
FTAB = '<<%s>>' % ', '.join([term('id'), term('up', RAMPS[0]), term('interp', CURVES[1]), term('cos', trig(1, 0, (1, 0, 1), (-1, 2), H)), term('xy', '<<>>', (2, 3)),
                             term('sincos', trig(1, 0, (1, 0, 1), H, H)), term('down', RAMPS[1])])
XYS = st(['<<%d, %d>>' % p for p in ((0, 0), (3, -2), (-5, 4), (10, 7), (1, 1), (-8, -6))])
AT = ['<<%s>>' % rat(t) for t in (0, 1, H, Q, (3, 4), -1, (5, 4), (3, 2), 2, (1, 3), (1, 12))]
ASIM = dict(FTab=FTAB, Xys=XYS, Times=st(AT), Tpairs=st(['<<%s, %s>>' % (rat(a), rat(b)) for a, b in ((0, 1), (H, Q), (1, 0), (-1, 2))]),
            TrigPars=st([trig(1), trig(2), trig(-1, 3), trig(H, 6), trig(1, 0, (3, 4, 5)), trig(3, 1), trig(2, 9, (-5, 12, 13))]), Radii='{1, 10, -3, 0}',
            Funcsets='1..7', MaxPts=7, MaxAnims=8, MaxHeld=8, Depth=45, Sample='TRUE', Lim=3000,
            Ops='{"linear", "lfunc", "sinus", "circ", "gen", "drift", "move", "hold"}')
AMC = dict(ASIM, Xys=st(['<<0, 0>>', '<<3, -2>>']), Times=st(AT[:3]), Tpairs=st(['<<%s, %s>>' % (rat(H), rat(Q))]), TrigPars=st([trig(1, 3)]), Radii='{10}', Funcsets='{5}',
           MaxPts=2, MaxAnims=1, MaxHeld=0, Depth=6, Sample='FALSE', Ops='{"linear", "lfunc", "sinus", "circ", "gen", "drift", "move"}')
AMC2 = dict(AMC, MaxAnims=2, MaxHeld=2, Xys=st(['<<3, -2>>']), Times=st(AT[1:3]), Ops='{"linear", "drift", "hold"}', Depth=7)


class Anims:
    def __init__(self, variant):
        from x7.geom import anim, geom
        self.a, self.g = anim, geom
        self.u = variant.get('unit', 1)
        self.f = Funcs(variant)
        self.ob, self.an = [], []
        self.holder = anim.AnimationHolder()

    def run(self, beh):
        for k, s in enumerate(beh):
            try:
                self.step(s)
                for i, (p, x) in enumerate(zip(self.ob, s['at'])):
                    want = (x[0] / x[2] * self.u, x[1] / x[2] * self.u)
                    ensure(near_xy(p.xy(), want, 100 * self.u), 'point %d is at' % (i + 1), p.xy(), 'expected', want)
            except Mismatch as e:
                raise Mismatch('step %d %s%s: %s' % (k + 1, s['op'], s['a'], e))
        return len(beh)

    def step(self, s):
        op, a, u, g = s['op'], s['a'], self.u, self.g
        if op == 'pt':
            b, p = a
            self.ob.append(g.PointRelative(p[0] * u, p[1] * u, self.ob[b - 1]) if b else g.Point(p[0] * u, p[1] * u))
        elif op == 'move':
            i, p = a
            self.ob[i - 1].setxy(p[0] * u, p[1] * u)
        elif op == 'anim':
            make = self.anim(*a)
            if s['r'] == 'ValueError':
                raises(ValueError, make)
            else:
                self.an.append(make())
        elif op == 'hold':
            self.holder.add(self.an[a[0] - 1])
        elif op == 'update':
            self.an[a[0] - 1].update(self.f.time(a[1]))
        elif op == 'all':
            self.holder.update(self.f.time(a))
        else:
            raise RuntimeError(op)

    def anim(self, k, i, j, a):
        A, p, t, u = self.a, self.ob[i - 1], self.ob[j - 1], self.u
        if k == 'linear':
            return lambda: A.AnimationLinear(p, t)
        if k == 'lfunc':
            if not self.f.fs:
                for f in table():
                    self.f.fs.append(self.f.make(f))
            return lambda: A.AnimationLinearFunc(p, t, self.f.fs[a[0] - 1])
        if k == 'sinus':
            return lambda: A.AnimationSinusoidal(p, t, self.f.num(a[0][0]), self.f.degrees(a[0]))
        if k == 'circ':
            return lambda: A.AnimationCircular(p, a[1] * u, frequency=self.f.num(a[0][0]), offset=math.radians(self.f.degrees(a[0])))
        if k == 'gen':
            return lambda: A.AnimationGeneric(p, lambda t, orig, pt: (orig.x + t * u, orig.y - 2 * t * u))
        return lambda: A.AnimationGeneric(p, lambda t, orig, pt: (pt.x + t * u, pt.y + t * u))


def table():
    """FTAB for the adapter"""
    r = lambda v: list(v if isinstance(v, tuple) else (v, 1))
    return [dict(k='id', a=[], s=[]), dict(k='up', a=[r(Q), r((3, 4))], s=[]),
            dict(k='interp', a=[[r(0), r((-1, 2))], [r(E), r(1)], [r((5, 8)), r(0)], [r((7, 8)), r(0)], [r(1), r((-1, 2))]], s=[]),
            dict(k='cos', a=[r(1), 0, [1, 0, 1], r((-1, 2)), r(H)], s=[]), dict(k='xy', a=[], s=[2, 3]),
            dict(k='sincos', a=[r(1), 0, [1, 0, 1], r(H), r(H)], s=[]), dict(k='down', a=[r(0), r(H)], s=[])]


def play_anims(beh, variant):
    return Anims(variant).run(beh)


def c17(ctx):
    V = [dict(), dict(unit=0.1, style=1), dict(unit=64, style=2)]
    props = dict(invariants=('Defined',), properties=('OnlyTheirs', 'OriginKept'), view='View', action_constraint='EmitStep')
    for name, c in (('one animation', dict(AMC, Depth=ctx.scale(6, 7))), ('holders', dict(AMC2, Depth=ctx.scale(7, 8)))):
        b = ctx.mc('AnimSys', cfg(constants=c, **props), name='AnimSys: ' + name, workers=5, timeout=850, heap='6g')
        ctx.count_ops(b)
        ctx.replay(name, b, play_anims, V, each=False)
    b = ctx.sim('AnimSys', cfg(spec='Walk', constants=ASIM, invariants=('Defined', 'EmitFull')), ctx.scale(3000, 30000), 46, procs=6, heap='2g')
    ctx.count_ops(b)
    ctx.replay('random points and animations', b, play_anims, V, each=False)
    for x in b:
        for s in x:
            if s['op'] == 'anim':
                ctx.ops[s['a'][0]] = ctx.ops.get(s['a'][0], 0) + 1
    ctx.need_ops('move', 'anim', 'hold', 'update', 'all', 'linear', 'lfunc', 'sinus', 'circ', 'gen', 'drift')
