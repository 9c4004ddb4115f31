"""C14: WalkSys.tla against drawing, walking and transforming models through a DrawingContext"""
import contextlib
import io

from .core import ensure, near, Mismatch
from .tlc import cfg


def node(t, x=(1, 0, 0, 0, 1, 0, 1), kids=(), hid=False, bad=''):
    return '[t |-> "%s", x |-> <<%s>>, kids |-> <<%s>>, hid |-> %s, bad |-> "%s"]' % (
        t, ', '.join(map(str, x)), ', '.join(map(str, kids)), 'TRUE' if hid else 'FALSE', bad)


def tree(*nodes):
    return '<<%s>>' % ', '.join(nodes)


TR, SC, RO = (1, 0, 3, 0, 1, -2, 1), (2, 0, 0, 0, 2, 1, 1), (0, -1, 0, 1, 0, 5, 1)
TREES = '{%s}' % ', '.join([
    tree(node('group', TR, (2, 3)), node('group', SC, (4,)), node('leaf', RO), node('leaf', TR)),
    tree(node('group', SC, (2, 3)), node('leaf', TR), node('leaf', RO, bad='in')),
    tree(node('group', RO, (2,)), node('group', SC, (3, 4)), node('leaf', TR), node('leaf', SC, bad='entry')),
    tree(node('group', TR, (2, 3)), node('holes', RO, (4, 5)), node('leaf'), node('leaf', SC), node('leaf', TR)),
    tree(node('group', SC, (2,)), node('holes', TR, (3, 4)), node('leaf', RO), node('leaf', SC, bad='in')),
    tree(node('group', TR, (2, 3)), node('group', SC, (4,), hid=True), node('leaf', RO, bad='pen'), node('leaf', TR, bad='entry')),
    tree(node('group', RO)),
])
MC = dict(Trees=TREES, MaxNodes=0, Xs='{<<1, 0, 3, 0, 1, -2, 1>>}', Us='{<<2, 0, 1, 0, -2, 0, 1>>}', Bads='{""}',
          Ops='{"iter", "xf", "paths", "cpaths", "draw", "shadow"}', Own='{FALSE}', Targets='{"A", "B"}', Colours='{"none", "red"}',
          MaxActs=2, MaxStack=1, Depth=3, Sample='FALSE', Lim=4000)
SIM = dict(Trees='{}', MaxNodes=14,
           Xs='{<<1, 0, 3, 0, 1, -2, 1>>, <<2, 0, 0, 0, 2, 1, 1>>, <<0, -1, 0, 1, 0, 5, 1>>, <<1, 0, 0, 0, 1, 0, 1>>, <<-1, 0, 2, 0, 1, 0, 1>>, <<1, 0, 0, 0, 2, -7, 2>>}',
           Us='{<<1, 0, 3, 0, 1, -2, 1>>, <<0, 1, 0, -1, 0, 0, 1>>, <<2, 0, 1, 0, 2, 0, 1>>, <<1, 0, 0, 0, -1, 4, 1>>, <<1, 0, 0, 0, 1, 0, 2>>}',
           Bads='{"", "in", "entry", "pen"}', Ops='{"iter", "xf", "paths", "cpaths", "draw", "shadow", "transform", "curves", "copy", "drawf"}',
           Own='{FALSE, TRUE}', Targets='{"A", "B"}', Colours='{"none", "red"}', MaxActs=4, MaxStack=9, Depth=40, Sample='TRUE', Lim=200000)
INV = ('MatrixIsProduct', 'SavedKept')


class Boom(Exception):
    pass


class Recorder:
    """A drawing target that understands colours and can fail at the n-th call"""

    def __init__(self):
        self.left = None

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)

        def call(*a, **kw):
            from PIL import ImageColor
            if self.left is not None:
                self.left -= 1
                if self.left <= 0:
                    raise Boom('target')
            for k in ('fill', 'outline'):
                c = kw.get(k)
                if isinstance(c, str):
                    ImageColor.getcolor(c, 'RGBA')
        return call


def classes():
    """Leaves of every kind that note how they are drawn and that can be made to fail"""
    from x7.geom import model, geom, bezier

    class BadPoint(geom.Point):
        __slots__ = ('armed',)

        def xy(self):
            if getattr(self, 'armed', False):
                raise Boom('point')
            return super().xy()

        def __iter__(self):
            return iter(self.xy())

        @property
        def x(self):
            return self.xy()[0]

    def leaf(base):
        class Leaf(base):
            bad = ''
            ident = 0
            world = None

            def entry(self, kinds=('entry',)):
                if self.bad in kinds:
                    raise Boom('leaf')

            def paths(self, dc):
                if self.world:
                    self.world.visited('paths', self, dc)
                self.entry()
                return super().paths(dc)

            def control_paths(self, dc):
                if self.world:
                    self.world.visited('cpaths', self, dc)
                self.entry()
                return super().control_paths(dc)

            def transform(self, matrix):
                self.entry()
                return super().transform(matrix)

            def copy(self):
                self.entry(('entry', 'in'))
                return super().copy()

            def as_curves(self):
                self.entry()
                return super().as_curves()

            def iter_elems(self, root='unknown', matrix=None):
                self.entry(('entry', 'in'))
                return super().iter_elems(root, matrix)
        return Leaf

    return BadPoint, {k: leaf(getattr(model, k)) for k in ('ElemCurve', 'ElemRectangle', 'ElemEllipse', 'ElemRectangleRounded')}


class World:
    def __init__(self, beh, variant):
        from x7.geom import geom, model, colors, bezier, transform, drawing
        from PIL import Image
        self.g, self.m, self.c, self.b, self.T, self.D = geom, model, colors, bezier, transform.Transform, drawing
        self.beh = beh
        self.kind = variant.get('kind', 0)
        self.unit = variant.get('unit', 1)
        self.builder = variant.get('builder', False)
        self.BadPoint, self.leafs = classes()
        dc = self.dc = drawing.DrawingContext(Image.new('RGBA', (24, 24), 'white'), None, prod=variant.get('prod', True))
        dc.debug = variant.get('debug', False)
        dc.show_cps = variant.get('cps', False)
        dc.points_per_curve = 8
        self.cps = dc.show_cps
        self.targets = {'A': Recorder(), 'B': Recorder()}
        dc.draw = self.targets['A']
        self.colours = {'none': None, 'red': (200, 0, 0, 255)}
        self.log = None
        self.walks = []
        self.nodes = {}
        self.build(1)

    # -- model ------------------------------------------------------------------------------------------------------
    def mat(self, x):
        u = self.unit
        return self.T((x[0] / x[6], x[1] / x[6], x[2] * u / x[6], x[3] / x[6], x[4] / x[6], x[5] * u / x[6]))

    def build(self, n):
        x = self.beh['tree'][n - 1]
        kids = [self.build(k) for k in x['kids']]
        m, g, b, u = self.m, self.g, self.b, self.unit
        pb = self.c.PenBrush('no such colour' if x['bad'] == 'pen' else 'black', 'blue' if n % 2 else None)
        name, xf = 'n%d' % n, self.mat(x['x'])
        if x['t'] == 'group':
            e = m.Group(name, pb, hidden=x['hid'], xform=xf, elems=kids, closed=True)
        elif x['t'] == 'holes':
            e = m.ElemWithHoles(name, pb, kids[0], kids[1:], closed=True, xform=xf)
        else:
            p1 = g.Point(n * u, 1 * u)
            p2 = self.BadPoint((n + 4) * u, 5 * u)
            p2.armed = False
            V = lambda a, c: g.Vector(a * u, c * u)
            k = (n + self.kind) % 4
            if k == 0:
                e = self.leafs['ElemCurve'](name, pb, [b.ControlPoint(p1, V(1, 0), V(0, 1)), b.ControlPoint(p2, V(1, 1), V(0, -2))], True, xf)
            elif k == 1:
                e = self.leafs['ElemRectangle'](name, pb, p1, p2, closed=True, xform=xf)
            elif k == 2:
                e = self.leafs['ElemEllipse'](name, pb, p1, p2, closed=True, xform=xf)
            else:
                e = self.leafs['ElemRectangleRounded'](name, pb, p1, p2, 1 * u, closed=True, xform=xf)
            e.bad, e.ident, e.world = x['bad'], n, self
            p2.armed = x['bad'] == 'in'
            if k == 0:
                e.control_points[1].c = p2
            else:
                e.p2 = p2       # (elements keep copies of the points they are made with)
        self.nodes[n] = e
        return e

    def visited(self, what, leaf, dc):
        if self.log is not None:
            tgt = [k for k, t in self.targets.items() if t is dc.draw]
            self.log.append((what, leaf.ident, self.six(dc.matrix), tgt[0] if tgt else 'shadow', dc.shadow_color))

    @staticmethod
    def six(t):
        return tuple(float(v) for v in t.as_6tuple())

    # -- comparing ---------------------------------------------------------------------------------------------------
    def same(self, six, x, what):
        u = self.unit
        want = (x[0] / x[6], x[1] / x[6], x[2] * u / x[6], x[3] / x[6], x[4] / x[6], x[5] * u / x[6])
        scale = max(1.0, max(abs(v) for v in want))
        ensure(all(near(a, b, scale) for a, b in zip(six, want)), what, 'is', six, 'expected', want)

    def observe(self, s):
        dc = self.dc
        self.same(self.six(dc.matrix), s['m'], 'the context matrix')
        ensure(len(dc.matrix.stack) == len(s['st']), len(dc.matrix.stack), 'saved mappings, expected', len(s['st']))
        # what is saved, seen by restoring it on a copy of the present state
        saved = [v for v in dc.matrix.stack]
        for mat, x in zip(saved, s['st']):
            r = mat.as_tuple3x3()
            self.same(tuple(float(v) for row in r[:2] for v in row), x, 'a saved mapping')
        ensure(dc.draw is self.targets[s['tgt']], 'the drawing target is not the one the caller set')
        ensure(dc.shadow_color == self.colours[s['col']], 'the shadow colour is', dc.shadow_color, 'expected', self.colours[s['col']])
        for n, x in enumerate(self.beh['tree'], 1):
            xf = self.nodes[n].xform
            self.same(self.six(xf), x['x'], 'the own transform of n%d' % n)
            ensure(not xf.stack, 'saved mappings are left on the own transform of n%d' % n)

    def check_log(self, s, what):
        want, got = s['log'], [v for v in self.log if v[0] == what]
        if s['r'] == 'ok':
            ensure([v[1] for v in got] == [v[0] for v in want], what, 'visited', [v[1] for v in got], 'expected', [v[0] for v in want])
        for (_, n, six, tgt, col), w in zip(got, want):
            if n != w[0]:
                continue
            self.same(six, w[1], 'the matrix in force at n%d' % n)
            ensure(tgt == w[2], 'n%d' % n, 'is drawn on', tgt, 'expected', w[2])
            ensure(col == (self.grey if w[3] == 'grey' else self.colours[w[3]]), 'n%d' % n, 'is drawn with shadow colour', col)

    # -- running ----------------------------------------------------------------------------------------------------
    def run(self):
        for k, s in enumerate(self.beh['h']):
            try:
                self.step(s)
                self.observe(s)
            except Mismatch as e:
                raise Mismatch('step %d %s%s: %s' % (k + 1, s['op'], s['a'], e))
        return len(self.beh['h'])

    def attempt(self, r, fn):
        """r: ok | raise | any"""
        boom = None
        value = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                value = fn()
        except (Boom, ValueError) as e:
            boom = e
        if r == 'ok':
            ensure(boom is None, 'unexpected failure: %r' % boom)
        if r == 'raise':
            ensure(boom is not None, 'the failure of a part was swallowed')
        return value

    def root(self, n):
        e = self.nodes[n]
        if self.builder and isinstance(e, self.m.Group):
            return self.m.GroupBuilder('b', self.c.PensByShape(), group=e)
        return e

    def step(self, s):
        op, a, r, dc = s['op'], s['a'], s['r'], self.dc
        if op == 'push':
            dc.matrix.push()
        elif op == 'pop':
            dc.matrix.pop()
        elif op == 'compose':
            dc.matrix.compose(self.mat(a))
        elif op == 'target':
            dc.draw = self.targets[a[0]]
        elif op == 'colour':
            dc.shadow_color = self.colours[a[0]]
        elif op == 'begin':
            e = self.root(a[2])
            fn = e.iter_elems if a[0] == 'iter' else e.iter_elems_transformed
            self.walks.append(fn() if a[1] else fn(matrix=dc.matrix) if a[2] % 2 else fn('root', dc.matrix))
        elif op == 'next':
            w = self.walks[-1]
            if r == 'elem':
                try:
                    got = next(w)
                except StopIteration:
                    raise Mismatch('the walk ended early')
                except Boom:
                    raise Mismatch('unexpected failure')
                n, x = s['log'][0]
                if a[0] == 'iter':
                    ensure(got[1] is self.nodes[n], 'the walk is at', got[1].name, 'expected n%d' % n)
                    self.same(self.six(got[2]), x, 'the matrix given with n%d' % n)
                else:
                    ensure(got.name.endswith('.n%d' % n), 'the walk is at', got.name, 'expected n%d' % n)
            elif r == 'stop':
                try:
                    got = next(w)
                except StopIteration:
                    pass
                else:
                    raise Mismatch('the walk goes on after its last element')
                self.walks.pop()
            else:
                try:
                    next(w)
                except Boom:
                    pass
                except StopIteration:
                    raise Mismatch('the failure of a part was swallowed')
                else:
                    raise Mismatch('the failure of a part was swallowed')
                self.walks.pop()
        elif op in ('close', 'drop'):
            self.walks.pop().close()
        elif op == 'throw':
            w = self.walks.pop()
            try:
                w.throw(Boom('caller'))
            except Boom:
                pass
            except StopIteration:
                raise Mismatch('the exception thrown into the walk was swallowed')
            else:
                raise Mismatch('the exception thrown into the walk was swallowed')
        elif op in ('transform', 'curves', 'copy'):
            e = self.nodes[a[0]]
            self.attempt(r, lambda: e.transform(dc.matrix) if op == 'transform' else e.as_curves() if op == 'curves' else e.copy())
        elif op == 'drawf':
            dc.draw.left = a[1]
            self.attempt('any', lambda: self.root(a[0]).draw(dc))
            dc.draw.left = None
        elif op in ('paths', 'cpaths', 'draw', 'shadow'):
            self.log = []
            n = a[1]
            self.grey = (140, 140, 170, 255) if n % 2 else (9, 8, 7, 255)
            e = self.nodes[n]
            if op == 'paths':
                self.attempt(r, lambda: e.paths(dc))
            elif op == 'cpaths':
                self.attempt(r, lambda: e.control_paths(dc))
            elif op == 'draw':
                self.attempt(r, lambda: self.root(n).draw(dc))
            elif n % 2:
                self.attempt(r, lambda: dc.shadow_draw(self.root(n)))
            else:
                self.attempt(r, lambda: dc.shadow_draw(self.root(n), self.grey))
            if op != 'cpaths' and not (r == 'raise' and self.cps):
                self.check_log(s, 'paths')
            if op == 'cpaths' or (self.cps and op in ('draw', 'shadow') and r == 'ok'):
                self.check_log(s, 'cpaths')
            self.log = None
        else:
            raise RuntimeError(op)


def go(beh, variant):
    return World(beh, variant).run()


VARIANTS = [dict(), dict(kind=1, unit=0.25, cps=True, builder=True), dict(kind=2, prod=False, debug=True), dict(kind=3, unit=8, cps=True)]


def c14(ctx):
    for name, c in (('walks', dict(MC, Ops='{"iter", "xf"}', Own='{FALSE, TRUE}', Targets='{"A"}', Colours='{"none"}', Depth=ctx.scale(6, 9))),
                    ('drawing inside walks', dict(MC, Depth=ctx.scale(4, 5)))):
        b = ctx.mc('WalkSys', cfg(constants=c, invariants=INV, properties=('Restored',), view='View', action_constraint='EmitStep'), name='WalkSys: ' + name, timeout=850, heap='8g', workers=4)
        for x in b:
            ctx.count_ops([x['h']])
        ctx.replay(name, b, go, VARIANTS, each=False)
    b = ctx.sim('WalkSys', cfg(spec='Walk', constants=SIM, invariants=INV + ('EmitFull',)), ctx.scale(3000, 15000), 900, procs=6, heap='2g')
    for x in b:
        ctx.count_ops([x['h']])
    ctx.replay('random models and callers', b, go, VARIANTS, each=False)
    ctx.need_ops('begin', 'next', 'close', 'throw', 'drop', 'paths', 'cpaths', 'draw', 'shadow', 'transform', 'curves', 'copy', 'drawf', 'push', 'pop', 'compose')
