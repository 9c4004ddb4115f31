"""C20: PensSys.tla against x7.geom.colors"""
import math

from .core import ensure, near, raises, Mismatch
from .tlc import cfg

# width factors of the maps below, by index: identity, double and turn, mirror and shift, 3-4-5 turn, shrink to 3/10, twice in x and 4 times in y, shift alone
MAPS = [((1, 1), (1, 0, 0, 0, 1, 0)), ((2, 1), (0, -2, 5, 2, 0, -3)), ((1, 1), (-1, 0, 7, 0, 1, 1)), ((5, 1), (3, -4, 0, 4, 3, 9)), ((3, 10), (0.3, 0, 100, 0, 0.3, -1)),
        ((7, 2), (0, -3.5, 1, -3.5, 0, 2)), ((1, 1), (1, 0, 40, 0, 1, -30)),
        ((3, 1), (2, 0, 5, 0, 4, 1)), ((5, 2), (0, -4, 1, 1, 0, 2)), ((3, 4), (-1, 0, 0, 0, 0.5, 2)), ((7, 2), (0, 3, 1, 4, 0, 2)), ((2, 1), (4, 0, 0, 0, 0, 1))]
XF = '{%s}' % ', '.join('<<<<%d, %d>>, %d>>' % (*f, i) for i, (f, _) in enumerate(MAPS))
W = '{%s}' % ', '.join('<<%d, %d>>' % w for w in ((0, 1), (1, 1), (3, 1), (-1, 1), (-5, 2), (1, 2), (7, 4), (-1, 8), (12, 1)))
MC = dict(Colours='{1, 2}', Widths='{<<0, 1>>, <<2, 1>>, <<-3, 2>>}', Xforms='{<<<<2, 1>>, 1>>}', MaxObjs=3, Depth=3, Sample='FALSE')
SIM = dict(Colours='1..7', Widths=W, Xforms=XF, MaxObjs=40, Depth=40, Sample='TRUE', Ops='{"pen", "pb", "pal", "col", "eq"}')
KINDS = ('edge', 'filled', 'clear', 'edge_filled', 'edge_clear')


class World:
    def __init__(self, variant):
        from x7.geom import colors, transform
        self.c, self.t = colors, transform
        self.v = variant
        self.n = variant['n']
        self.ob = []
        self.spec = []
        self.same = []      # places of values made from pens that are used as they are

    def colour(self, i):
        if i == 0:
            return None
        if i == self.n:
            return self.c.TRANSPARENT
        style = self.v.get('style', 0)
        return [('black', 'red', 'blue', 'white', 'gold', 'teal'), ('black', 0, 255, 7, 100, 1), ('black', (1, 2, 3), (0, 0, 0), (0, 0, 0, 255), '#123456', (9, 9, 9, 9))][style][i - 1]

    def num(self, r):
        v = r[0] / r[1]
        return int(v) if v == int(v) and not self.v.get('style') else v

    def brush(self, i):
        """a colour as such or as a brush"""
        return self.c.Brush(self.colour(i)) if i and self.v.get('brush') else self.colour(i)

    def step(self, s):
        c, op, a = self.c, s['op'], s['a']

        def ob(k):
            return self.ob[a[k] - 1]
        kw = self.v.get('style') != 1
        if op == 'pen':
            new = c.Pen(self.brush(a[0]), width=self.num(a[1])) if kw else c.Pen(self.brush(a[0]), self.num(a[1]))
        elif op == 'thin':
            new = c.Pen(self.brush(a[0]))
        elif op == 'pb':
            k, x, w, b = a
            pen = {'colour': self.colour(x), 'pair': (self.colour(x), self.num(w)), 'none': None}[k]
            if k == 'colour' and isinstance(pen, tuple) and len(pen) == 2:
                raise RuntimeError
            new = c.PenBrush(pen, self.brush(b)) if b or kw else c.PenBrush(pen)
        elif op == 'pb of pen':
            new = c.PenBrush(ob(0), self.brush(a[1]))
        elif op in ('palette', 'cpalette'):
            draft, *rest = a
            d = rest.pop()
            args = [self.colour(x) for x in rest[:3]] + ([self.num(rest[3])] if op == 'palette' else [])
            args = args[:len(args) - d] if d else args
            cls = c.PensByShape if op == 'palette' else c.ColorsByShape
            if kw:
                new = cls.make(draft=draft, **dict(zip(('color', 'fill', 'transparent', 'width'), args)))
            else:
                new = cls.make(draft, *args)
        elif op == 'custom':
            i, j, k1, k2 = a
            kinds = {k2: ob(1)}
            kinds[k1] = ob(0)
            new = c.PensByShape(**kinds)
        elif op == 'kind':
            new = ob(0)[a[1]]
            ensure(new == getattr(ob(0), a[1]), 'kind and attribute differ')
        elif op == 'pen brush':
            new = ob(0).replace(brush=self.brush(a[1]))
        elif op == 'pen width':
            new = ob(0).replace(width=self.num(a[1]))
        elif op == 'pen both':
            new = ob(0).replace(self.brush(a[1]), self.num(a[2]))
        elif op == 'pb pen':
            new = ob(0).replace(pen=ob(1))
        elif op == 'pb colour':
            new = ob(0).replace(pen=self.colour(a[1]))
        elif op == 'pb width':
            new = ob(0).replace(width=self.num(a[1]))
        elif op == 'pb brush':
            new = ob(0).replace(brush=self.brush(a[1]))
        elif op == 'pb width brush':
            new = ob(0).replace(width=self.num(a[1]), brush=self.brush(a[2]))
        elif op == 'pb pen brush':
            new = ob(0).replace(pen=ob(1), brush=self.brush(a[2]))
        elif op == 'pb same':
            new = ob(0).replace()
        elif op == 'pal width':
            new = ob(0).replace_width(self.num(a[1]))
        elif op == 'colours':
            o, f, n = a
            no = c.NOCOLOR if n else None
            new = c.Colors(self.colour(o) if o else no, self.colour(f) if f else no)
        elif op == 'pb pen width':
            raises(ValueError, lambda: ob(0).replace(pen=ob(1), width=self.num(a[2])))
            return
        elif op == 'no kind':
            raises(ValueError, lambda: ob(0)['other'])
            raises(ValueError, lambda: ob(0)['make'])
            return
        elif op == 'stroke':
            got = ob(0).stroke_width(self.t.Transform(MAPS[a[1][1]][1]))
            want = self.num(s['r'][0]) if s['r'] else None
            ensure(got is None if want is None else got is not None and near(got, want), 'stroke width is', got, 'expected', want)
            return
        elif op == 'equal':
            got, rev = ob(0) == ob(1), ob(0) != ob(1)
            ensure(got is not rev and got is s['r'][0], '%r == %r is %r' % (ob(0), ob(1), got))
            ensure(not ob(0) == 5 and not ob(0) == None, 'equal to something else')     # noqa
            return
        else:
            raise RuntimeError(op)
        if op not in ('kind',):
            ensure(not any(new is x for x in self.ob), op, 'returned an existing value')
        self.ob.append(new)
        self.spec.append(s['r'][0])

    def is_pen(self, p, want, at):
        if want['c'] == 0:
            ensure(p is None, at, 'has pen', p)
        else:
            ensure(type(p) is self.c.Pen and p.brush == self.c.Brush(self.colour(want['c'])) and p.brush.color == self.colour(want['c']), at, 'has pen', p)
            ensure(p.width == self.num(want['w']), at, 'has width', p.width, 'expected', want['w'])

    def is_pb(self, p, want, at):
        ensure(type(p) is self.c.PenBrush, at, 'is', p)
        self.is_pen(p.pen, want['p'], at)
        ensure(p.brush == (self.c.Brush(self.colour(want['b'])) if want['b'] else None), at, 'has brush', p.brush)
        ensure(p.filled is bool(want['b']) and p.stroked is bool(want['p']['c']), at, 'filled', p.filled, 'stroked', p.stroked)
        ensure(p.fill_color == self.colour(want['b']) and p.stroke_color == self.colour(want['p']['c']), at, 'colours', p.fill_color, p.stroke_color)

    def look(self):
        for i, (x, w) in enumerate(zip(self.ob, self.spec)):
            at = 'value %d' % (i + 1)
            c = self.c
            if isinstance(x, c.Pen):
                self.is_pen(x, w, at)
            elif isinstance(x, c.PenBrush):
                self.is_pb(x, w, at)
            elif isinstance(x, c.PensByShape):
                ensure(set(x.keys()) == set(KINDS), 'kinds', x.keys())
                for k in KINDS:
                    self.is_pb(x[k], w[k], at + ' ' + k)
                    self.is_pb(getattr(x, k), w[k], at + ' .' + k)
            else:
                for k in KINDS if isinstance(x, c.ColorsByShape) else (None,):
                    y, v = (x[k], w[k]) if k else (x, w)
                    ensure(y.outline == self.colour(v['o']) and y.fill == self.colour(v['f']), at, k, 'is', y)
                    ensure(y.filled is bool(v['f']), at, k, 'filled is', y.filled)

    def run(self, beh):
        for k, s in enumerate(beh):
            try:
                self.step(s)
                if k % 7 == 0 or k >= len(beh) - 2:
                    self.look()
            except Mismatch as e:
                raise Mismatch('step %d %s%s: %s' % (k + 1, s['op'], s['a'], e))
        return len(beh)


def play(beh, variant):
    return World(variant).run(beh)


def c20(ctx):
    kw = dict(invariants=('Widen', 'Idem'), properties=('Immutable',), view='View', action_constraint='EmitStep')
    V = [dict(style=0), dict(style=1, brush=True), dict(style=2)]
    for name, ops in (('pens and brushes', '{"pen", "pb", "eq"}'), ('palettes', '{"pb", "pal"}'), ('colours', '{"col", "pal"}')):
        c = dict(MC, Ops=ops, Depth=3 if name == 'pens and brushes' else 2)
        if name == 'pens and brushes':
            c['Widths'] = ctx.scale('{<<0, 1>>, <<-3, 2>>}', c['Widths'])
        b = ctx.mc('PensSys', cfg(constants=c, **kw), name='PensSys: ' + name, workers=4, timeout=850, heap='6g')
        ctx.count_ops(b)
        ctx.replay(name, b, play, [dict(v, n=2) for v in V], each=False)
    b = ctx.sim('PensSys', cfg(constants=SIM, invariants=('Widen', 'Idem', 'EmitFull')), ctx.scale(1500, 20000), SIM['Depth'] + 1, procs=6, heap='2g')
    ctx.count_ops(b)
    ctx.replay('random values', b, play, [dict(v, n=7) for v in V], each=False)
    ctx.need_ops('pen', 'thin', 'pb', 'pb of pen', 'palette', 'cpalette', 'custom', 'kind', 'pen brush', 'pen width', 'pen both', 'pb pen', 'pb colour', 'pb width', 'pb brush', 'pb width brush',
                 'pb pen brush', 'pb same', 'pb pen width', 'pal width', 'no kind', 'stroke', 'equal', 'colours')
