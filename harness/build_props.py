"""C26: BuildSys.tla against GroupBuilder of x7.geom.model"""
import contextlib
import io
import math

from .core import ensure, near, near_xy, raises, Mismatch
from .model_props import Rec, mul, app, IDENT
from .tlc import cfg

KINDS = ('edge', 'filled', 'clear', 'edge_filled', 'edge_clear')
TURNS = ['<<%d, %d, %d>>' % t for t in ((0, 1, 1), (-1, 0, 1), (0, -1, 1), (1, 0, 1), (3, 4, 5), (4, -3, 5), (-4, 3, 5))]
# 1: line, 2: fill, 3: line and fill, 4: transparent fill, 5: thick line, 6: line and transparent fill, 7: neither
PALS = ['[k \\in Kinds |-> CASE k = "edge" -> 1 [] k = "filled" -> 2 [] k = "clear" -> 4 [] k = "edge_filled" -> 3 [] OTHER -> 6]',
        '[k \\in Kinds |-> 5]', '[k \\in Kinds |-> CASE k = "edge" -> 7 [] k = "filled" -> 3 [] k = "clear" -> 5 [] k = "edge_filled" -> 4 [] OTHER -> 2]']
SIM = dict(Types='{"rect", "rrect", "ellipse"}', Hows='{}', Names='{"a", "b", "c", "a_r", "a_c", "rectangle#0", "p.q"}', Extras='{"", "x", "1"}', Cs='{-7, -3, 0, 2, 5, 8}', Turns='{%s}' % ', '.join(TURNS), Radii='{1, 2}',
           Pens='7', Filled='{2, 3, 4, 6}', Palettes='<<%s>>' % ', '.join(PALS), MaxB=5, MaxG=9, MaxE=16, MaxP=4, Lim=20000, Depth=18, Sample='TRUE',
           Ops='{"over", "setpen", "shape", "curve", "sub", "point", "hide", "rotate", "replace"}')
MC = dict(SIM, Names='{"a", "p.q"}', Extras='{"x"}', Cs='{2, 5}', Turns='{<<0, 1, 1>>}', Radii='{1}', Pens='2', Filled='{2}', Palettes='<<[k \\in Kinds |-> IF k = "filled" THEN 2 ELSE 1]>>',
          MaxB=2, MaxG=3, MaxE=4, MaxP=1, Depth=4, Sample='FALSE')


class World:
    def __init__(self, variant):
        from x7.geom import model, geom, colors, bezier, drawing, transform
        self.m, self.g, self.c, self.b, self.d, self.t = model, geom, colors, bezier, drawing, transform
        self.v = variant
        self.u = variant.get('unit', 1)
        pb = colors.PenBrush
        self.pens = [pb('default'), pb(('black', 1)), pb(None, 'blue'), pb(('red', 2.5), 'pink'), pb(None, colors.TRANSPARENT), pb(('navy', 4)), pb('gold', colors.TRANSPARENT), pb(None)]
        self.pals = []
        self.gr, self.el, self.bl, self.pt = [], [], [], []

    def XY(self, p):
        return p[0] / p[2] * self.u, p[1] / p[2] * self.u

    def corner(self, c):
        i, x, y = c
        return self.pt[i - 1] if i else self.g.Point(x * self.u, y * self.u)

    def palette(self, i):
        while len(self.pals) < i:
            n = len(self.pals)
            t = [dict(zip(KINDS, (1, 2, 4, 3, 6))), dict.fromkeys(KINDS, 5), dict(zip(KINDS, (7, 3, 5, 4, 2)))][n]
            if self.v.get('small'):
                t = {k: 2 if k == 'filled' else 1 for k in KINDS}
            self.pals.append(self.c.PensByShape(**{k: self.pens[x] for k, x in t.items()}))
        return self.pals[i - 1]

    def kw(self, how, cl=''):
        k = {}
        if how[0] != 'default':
            k['shape_kind'] = {'bad': 'make', 'kind': how[1], 'pen': self.pens[how[1]] if how[0] == 'pen' else None}[how[0]]
        elif self.v.get('none'):
            k['shape_kind'] = None
        if cl:
            k['closed'] = cl == 'T'
        return k

    def make(self, s, fn):
        """Make an element or group; where it is refused nothing is to change"""
        if s['r'] in ('ValueError', 'AssertionError'):
            raises((ValueError, AssertionError), fn)
            return None
        return fn()

    def step(self, s):
        op, a, r = s['op'], s['a'], s['r']
        m, G = self.m, self.m.GroupBuilder
        if op in ('start', 'over'):
            old = self.gr[a[0] - 1] if op == 'over' else None
            p, k = a[-2:]
            name = 'b%d' % len(self.bl)
            raises(TypeError, lambda: G(name, self.pens[1]))
            kw = dict(shape_kind=k) if k else {}
            if old is not None:
                kw['group'] = old
            b = G(name, self.palette(p), **kw)
            if old is not None:
                ensure(b.the_group is old, 'the builder has a group of its own')
            else:
                self.gr.append(b.the_group)
            self.bl.append(b)
        elif op == 'setpen':
            setattr(self.palette(a[0]), a[1], self.pens[a[2]])
        elif op == 'shape':
            b, t, n, how, cl, p, q, rad = a
            b = self.bl[b - 1]
            fn = {'rect': b.rect, 'rrect': b.rrect, 'ellipse': b.ellipse}[t]
            extra = dict(radius=rad * self.u) if t == 'rrect' else {}
            e = self.make(s, lambda: fn(n, p1=self.corner(p), p2=self.corner(q), **extra, **self.kw(how, cl)))
            if e is not None:
                self.el.append(e)
        elif op == 'curve':
            b, n, how, cl, g = a
            V = self.g.Vector
            cps = [self.b.ControlPoint(self.pt[x - 1] if w == 'live' else self.g.Point(*self.XY(x)), V(0, 0), V(0, 0), 'sharp') for w, x in g]
            e = self.make(s, lambda: self.bl[b - 1].curve(n, cps=cps, **self.kw(how, cl)))
            cps.clear()
            if e is not None:
                self.el.append(e)
        elif op == 'sub':
            b, n, p, k = a
            kw = {}
            if p:
                kw['pens_by_shape'] = self.palette(p)
            if k:
                kw['shape_kind'] = k
            g = self.make(s, lambda: self.bl[b - 1].group(n, **kw))
            if g is not None:
                self.bl.append(g)
                self.gr.append(g.the_group)
        elif op == 'point':
            b, n, x, y = a
            b = self.bl[b - 1]
            x, y = x * self.u, y * self.u
            if len(self.pt) % 2:
                p = self.g.Point(x, y)
                got = self.make(s, lambda: b.add_pt(n, p))
                ensure(got is None or got is p, 'add_pt returns', got)
            else:
                got = self.make(s, lambda: b.point(n, x, y))
            if got is not None:
                ensure(got.name == n, 'the point is named', got.name)
                self.pt.append(got)
        elif op == 'move':
            i, x, y = a
            self.pt[i - 1].setxy(x * self.u, y * self.u)
        elif op == 'hide':
            self.bl[a[0] - 1].hide()
            ensure(self.bl[a[0] - 1].hidden is True, 'hide() left hidden at', self.bl[a[0] - 1].hidden)
        elif op == 'rotate':
            b, x, t, show, ex = a
            e = (self.gr if x[0] == 'g' else self.el)[x[1] - 1]
            ang = math.degrees(math.atan2(t[1], t[0])) if t[2] > 1 else {(0, 1): 90, (-1, 0): 180, (0, -1): 270, (1, 0): 360}[t[0], t[1]]
            if self.v.get('minus'):
                ang -= 360
            kw = dict(show=show) if show or self.v.get('none') else {}
            if ex or self.v.get('none'):
                kw['extra'] = ex
            new = self.bl[b - 1].rotate_about_center(e, ang, **kw)
            ensure(type(new) is type(e) and new is not e, 'the turned copy is', new)
            self.adopt(new)
            if show:
                self.el.append(list(self.bl[b - 1].the_group.elems.values())[-1])
                ensure(type(self.el[-1]) is m.ElemEllipse, 'the mark is', self.el[-1])
        elif op == 'replace':
            b, i, n, (x, y), pen = a
            P = self.g.Point
            new = m.ElemRectangle(n, self.pens[pen], P(x * self.u, y * self.u), P((x + 2) * self.u, (y + 3) * self.u))
            got = self.make(s, lambda: self.bl[b - 1].replace(self.el[i - 1], new))
            if got is not None:
                ensure(got == r, 'replaced', got, 'expected', r)
                self.el.append(new)
        else:
            raise RuntimeError(op)

    def adopt(self, x):
        """A copy, in the order of the specification"""
        if isinstance(x, self.m.Group):
            self.gr.append(x)
            for k in x.elems.values():
                self.adopt(k)
        else:
            self.el.append(x)

    # -- looking -------------------------------------------------------------------------------------------------
    def look(self, s, last):
        l = s['l']
        ensure(len(l['b']) == len(self.bl), 'lost count of the builders')
        for p, w in zip(self.pt, l['pt']):
            ensure(near_xy(p.xy(), self.XY(w), 20 * self.u), 'a point is at', p, 'expected', self.XY(w))
        for b, w in zip(self.bl, l['b']):
            at = 'builder of %s' % b.the_group.name
            g = b.the_group
            ensure(g is self.gr[w['g'] - 1], at, 'builds another group')
            ensure(list(g.elems) == [k for k, x in w['keys']], at, 'has', list(g.elems), 'expected', [k for k, x in w['keys']])
            for (k, x), e in zip(w['keys'], g.elems.values()):
                ensure(e is (self.gr if x[0] == 'g' else self.el)[x[1] - 1], at, k, 'is another element')
                ensure(e.name == k, at, k, 'is named', e.name)
                ensure(b.lookup(k) is e, at, 'lookup of', k)
            ensure({k: id(p) for k, p in g.points.items()} == {k: id(self.pt[i - 1]) for k, i in w['pts']}, at, 'has points', g.points)
            for k, i in w['pts']:
                ensure(b.lookup_pt(k) is self.pt[i - 1], at, 'lookup_pt of', k)
            raises(KeyError, b.lookup, 'nobody')
            raises(KeyError, b.lookup_pt, 'nobody')
            ensure(g.hidden is w['hid'], at, 'hidden is', g.hidden)
            self.walk(b, w['w'], at)
            self.draw(b, w['w'], at)
            if last:
                self.dumps(b, at)

    def walk(self, b, want, at):
        root = b.the_group.name
        for r, mat in ((None, None), ('r', (0, 2 * self.u, 5, -2 * self.u, 0, 1))):
            n = 0
            for name, e, matrix in b.iter_elems(r, self.t.Transform(mat) if mat else None):
                ensure(n < len(want), at, 'iter_elems gives too many:', name)
                w = want[n]
                n += 1
                path = (r + '.' if r else '') + root + w['path']
                ensure(name == path, at, 'iter_elems gives', name, 'expected', path)
                ensure(e is self.el[w['i'] - 1], at, 'iter_elems gives another element for', path)
                if not r:
                    ensure(b.lookup(w['path'][1:]) is e, at, 'lookup of', w['path'])
                self.element(e, w, matrix.as_6tuple(), mat or IDENT, path)
            ensure(n == len(want), at, 'iter_elems gives %d elements, expected %d' % (n, len(want)))
        xs = list(b.iter_elems_transformed())
        ensure([x.name for x in xs] == [root + '.' + k for k in b.the_group.elems], at, 'iter_elems_transformed gives', [x.name for x in xs])

    KIND = dict(rect='ElemRectangle', rrect='ElemRectangleRounded', ellipse='ElemEllipse', curve='ElemCurve')

    def element(self, e, w, matrix, ctx, path):
        ensure(type(e).__name__ == self.KIND[w['t']], path, 'is', type(e).__name__)
        ensure(e.penbrush == self.pens[w['pen']], path, 'has', e.penbrush, 'expected', self.pens[w['pen']])
        ensure(e.closed is w['cl'], path, 'closed is', e.closed)
        m = mul(matrix, e.xform.as_6tuple())
        want = [app(ctx, self.XY(p)) for p in w['o']]
        sc = 100 * max(1, self.u) ** 2
        if w['t'] == 'curve':
            cps = e.control_points
            ensure(len(cps) == len(want), path, 'has %d points' % len(cps))
            for cp, p in zip(cps, want):
                for q in (cp.c, cp.l, cp.r):
                    ensure(near_xy(app(m, q.xy()), p, sc), path, 'has a point at', app(m, q.xy()), 'expected', p)
        else:
            x1, y1, x2, y2 = *e.p1.xy(), *e.p2.xy()
            got = [app(m, p) for p in ((x1, y1), (x1, y2), (x2, y2), (x2, y1))]
            for p in want:
                ensure(any(near_xy(p, q, sc) for q in got), path, 'has corners', got, 'expected', want)
            if w['t'] == 'rrect':
                ensure(near(e.radius * math.sqrt(abs(m[0] * m[4] - m[1] * m[3])), w['r'] * self.u * math.sqrt(abs(ctx[0] * ctx[4] - ctx[1] * ctx[3])), sc), path, 'has radius', e.radius)

    def draw(self, b, want, at):
        from PIL import Image
        log = []
        dc = self.d.DrawingContext(Image.new('RGBA', (8, 8)), None)
        dc.draw = Rec(log)
        dc.debug = False
        b.draw(dc)
        exp = []
        for w in want:
            if w['hid']:
                continue
            pb = self.pens[w['pen']]
            if pb.filled:
                exp.append(('polygon', pb.fill_color))
            if pb.stroked:
                exp.append(('line', pb.stroke_color))
        got = [(x[0], x[2]) for x in log]
        ensure(got == exp, at, 'draws', got, 'expected', exp)

    def dumps(self, b, at):
        env = {}
        text = b.dump().output()
        exec(text, env)
        ensure(env['model'] == b.the_group, at, 'dumps another model:\n' + text)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            b.display()
        ensure(all(k in out.getvalue() for k in b.the_group.elems), at, 'display leaves out elements')

    def run(self, beh):
        for k, s in enumerate(beh):
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    self.step(s)
                if k % 3 == 2 or k >= len(beh) - 2:
                    self.look(s, k == len(beh) - 1)
            except Mismatch as e:
                raise Mismatch('step %d %s%s: %s' % (k + 1, s['op'], s['a'], e))
        return len(beh)


def play(beh, variant):
    return World(variant).run(beh)


VAR = [dict(), dict(none=True), dict(minus=True)]       # (the mark at a centre is a unit in size, so others will not do)


def c26(ctx):
    inv = ('Unique', 'Once', 'FilledClosed', 'SameCentre')
    kw = dict(invariants=inv, properties=('Kept', 'Stay'), view='View', action_constraint='EmitStep')
    few = '{<<"default", "">>}'
    for name, ops, more in (('shapes', '{"shape"}', dict(Depth=2)), ('curves', '{"curve"}', dict(Depth=2)),
                            ('pens', '{"shape", "setpen"}', dict(Depth=4, Cs='{2, 5}', Types='{"rect"}', Names='{"a"}', Hows='{<<"default", "">>, <<"kind", "filled">>}')),
                            ('groups and turns', '{"curve", "sub", "point", "hide", "rotate"}', dict(Depth=ctx.scale(4, 5), Cs='{2}', Names='{"a"}', Hows=few)),
                            ('over and replace', '{"shape", "over", "sub", "replace", "hide"}', dict(Depth=4, Types='{"rrect"}', Hows=few))):
        b = ctx.mc('BuildSys', cfg(constants=dict(MC, Ops=ops, **more), **kw), name='BuildSys: ' + name, workers=4, timeout=850, heap='6g')
        ctx.count_ops(b)
        ctx.replay(name, b, play, [dict(v, small=True) for v in VAR], each=False)
    b = ctx.sim('BuildSys', cfg(spec='Play', constants=SIM, invariants=inv + ('EmitFull',)), ctx.scale(600, 8000), SIM['Depth'] + 1, procs=6, heap='2g')
    ctx.count_ops(b)
    ctx.replay('random models', b, play, VAR, each=False)
    ctx.need_ops('start', 'over', 'setpen', 'shape', 'curve', 'sub', 'point', 'move', 'hide', 'rotate', 'replace')
