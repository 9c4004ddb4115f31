"""C11, C12, C13, C16, C25: ModelSys.tla against x7.geom.model (C14: walk_props, C15: names_props)"""
import contextlib
import io
import math

from .core import ensure, near, near_xy, Mismatch
from .tlc import cfg

KAPPA = 4 / 3 * math.tan(math.radians(22.5))

# -------------------------------------------------------------------------------------------------- configurations
PENS = ('<<[p |-> "black", w |-> <<1, 1>>, b |-> ""], [p |-> "red", w |-> <<0, 1>>, b |-> "blue"], [p |-> "", w |-> <<0, 1>>, b |-> "green"], '
        '[p |-> "navy", w |-> <<-12, 5>>, b |-> ""], [p |-> "teal", w |-> <<-16, 5>>, b |-> "transparent"], [p |-> "gold", w |-> <<13, 5>>, b |-> "pink"], '
        '[p |-> "", w |-> <<0, 1>>, b |-> ""]>>')
CTXS = ('<<[m |-> <<1, 0, 0, 0, 1, 0, 1>>, s |-> <<1, 1>>], [m |-> <<2, 0, 7, 0, -2, 90, 1>>, s |-> <<2, 1>>], [m |-> <<3, -4, 1, 4, 3, 2, 5>>, s |-> <<1, 1>>], '
        '[m |-> <<0, 3, 0, 1, 0, 0, 1>>, s |-> <<2, 1>>], [m |-> <<1, 0, 5, 0, 1, -5, 8>>, s |-> <<1, 8>>], [m |-> <<-9, 12, 0, 12, 9, 0, 2>>, s |-> <<15, 2>>]>>')
SIMILAR = ['<<1, 0, 0, 0, 1, 0, 1>>', '<<1, 0, 3, 0, 1, -2, 1>>', '<<0, -1, 4, 1, 0, 0, 1>>', '<<2, 0, 0, 0, 2, 1, 1>>', '<<3, -4, 0, 4, 3, 5, 5>>', '<<-1, 0, 2, 0, 1, 3, 1>>',
           '<<0, 1, 0, 1, 0, -6, 2>>', '<<-5, 0, 0, 0, -5, 9, 2>>', '<<4, 3, 10, 3, -4, 0, 5>>']
OTHER = ['<<2, 0, 1, 0, 3, 0, 1>>', '<<1, 1, 0, 0, 1, 0, 1>>', '<<0, 2, 3, 1, 0, 0, 1>>', '<<1, 2, -3, -1, 1, 4, 2>>', '<<-3, 0, 0, 0, 1, 1, 1>>', '<<3, 1, 0, 1, 2, 0, 1>>']
# maps that differ in their shift alone (on a small unit, by very little)
NEIGHBOURS = ['<<0, -1, 4, 1, 0, 0, 1>>', '<<0, -1, 3, 1, 0, 0, 1>>', '<<0, -1, 4, 1, 0, 1, 1>>', '<<2, 0, 0, 0, 2, 1, 1>>', '<<2, 0, 1, 0, 2, 1, 1>>', '<<1, 0, 0, 0, 1, 0, 1>>', '<<1, 0, 1, 0, 1, 0, 1>>']
TYPES = '{"curve", "rect", "ellipse", "rrect"}'
ALL_OPS = '{"group", "holes", "copy", "transform", "restore", "edit", "scribble", "drop", "ctx"}'
SIM = dict(Leaves='{}', Types=TYPES, Cs='-9..9', Ds='-5..5', Lens='2..4', Kinds='{"smooth", "very-smooth", "sharp"}', Pens=PENS, Maps='{%s}' % ', '.join(SIMILAR + OTHER),
           Ctxs=CTXS, MaxRoots=6, MaxNodes=60, MaxKids=3, MaxDepth=4, Depth=20, Lim=3000, Sample='TRUE', Ops=ALL_OPS)
MC_LEAVES = ('{[t |-> "curve", g |-> <<<<0, 0, 1, 2, -1, 1>>, <<4, 1, 0, -1, 2, 2>>>>, k |-> <<"smooth", "sharp">>, cl |-> TRUE], '
             '[t |-> "rrect", g |-> <<5, 1, -1, 3, 1>>, k |-> <<>>, cl |-> TRUE], [t |-> "ellipse", g |-> <<-1, 2, 2, 8>>, k |-> <<>>, cl |-> TRUE]}')
MC = dict(SIM, Leaves=MC_LEAVES, Types='{"rect"}', Cs='{2}', Ds='{}', Lens='{2}', Kinds='{"sharp"}', Pens='<<[p |-> "red", w |-> <<-2, 1>>, b |-> "blue"]>>',
          Maps='{<<0, -1, 4, 1, 0, 0, 1>>}', Ctxs='<<[m |-> <<2, 0, 7, 0, -2, 90, 1>>, s |-> <<2, 1>>]>>', MaxRoots=3, MaxNodes=9, MaxKids=2, MaxDepth=3, Depth=3, Lim=300, Sample='FALSE')
INV = ('Disjoint', 'NamesDiffer', 'FilledClosed', 'EdgesOnce', 'LastTransform', 'LastRestore')
ODD_NAMES = {'e': 'it\'s "e\\', 'x': 'x y\n', 'y': 'ÿ€', 'p': 'p\'"'}


def sim_cfg(**kw):
    return cfg(spec='Walk', constants=dict(SIM, **kw), invariants=INV + ('EmitFull',))


def mc_cfg(**kw):
    return cfg(constants=dict(MC, **kw), invariants=INV, view='View', action_constraint='EmitStep')


# ------------------------------------------------------------------------------------------------------ the adapter
def mul(m, n):
    """affine maps as floats (a b c d e f): first n, then m"""
    return (m[0] * n[0] + m[1] * n[3], m[0] * n[1] + m[1] * n[4], m[0] * n[2] + m[1] * n[5] + m[2],
            m[3] * n[0] + m[4] * n[3], m[3] * n[1] + m[4] * n[4], m[3] * n[2] + m[4] * n[5] + m[5])


def app(m, p):
    return m[0] * p[0] + m[1] * p[1] + m[2], m[3] * p[0] + m[4] * p[1] + m[5]


IDENT = (1, 0, 0, 0, 1, 0)


def rotations(cps):
    """the same closed outline from every start, both ways; cps are (c, l, r)"""
    n = len(cps)
    for k in range(n):
        yield cps[k:] + cps[:k]
    rev = [(c, r, l) for c, l, r in reversed(cps)]
    for k in range(n):
        yield rev[k:] + rev[:k]


def merged(cps, scale):
    """points of a rounded rectangle that coincide up to rounding count as one"""
    out = []
    for c, l, r in cps:
        if out and near_xy(out[-1][0], c, scale, 1e-8):
            out[-1] = (out[-1][0], out[-1][1], r)
        else:
            out.append((c, l, r))
    if len(out) > 1 and near_xy(out[0][0], out[-1][0], scale, 1e-8):
        c, l, r = out.pop()
        out[0] = (out[0][0], l, out[0][2])
    return out


def same_cps(a, b, scale):
    return len(a) == len(b) and all(near_xy(p, q, scale) for x, y in zip(a, b) for p, q in zip(x, y))


def bez_at(a, b, t):
    (p0, _, p1), (p3, p2, _) = a, b
    s = 1 - t
    return tuple(s * s * s * p0[k] + 3 * s * s * t * p1[k] + 3 * s * t * t * p2[k] + t * t * t * p3[k] for k in (0, 1))


def polyline(cps, closed, steps):
    out = [cps[0][0]] if cps else []
    n = len(cps)
    for i in range(n if closed else n - 1):
        for j in range(1, steps + 1):
            out.append(bez_at(cps[i], cps[(i + 1) % n], j / steps))
    return out


class Rec:
    """Stands in for ImageDraw: records what is drawn"""

    def __init__(self, log):
        self.log = log

    @staticmethod
    def pts(p):
        p = p.tolist() if hasattr(p, 'tolist') else list(p)
        if p and not isinstance(p[0], tuple):
            p = list(zip(p[::2], p[1::2]))
        return p

    def box(self, xy):
        """ImageDraw refuses boxes with inverted corners"""
        p = self.pts(xy)
        ensure(len(p) == 2 and p[0][0] <= p[1][0] and p[0][1] <= p[1][1], 'drawing a box with inverted corners', p)
        return p

    def polygon(self, xy, fill=None, outline=None, width=1):
        self.log.append(('polygon', self.pts(xy), fill, 0))

    def line(self, xy, fill=None, width=0, joint=None):
        self.log.append(('line', self.pts(xy), fill, width))

    def ellipse(self, xy, fill=None, outline=None, width=1):
        self.log.append(('ellipse', self.box(xy), fill, 0))

    def rectangle(self, xy, fill=None, outline=None, width=1):
        self.log.append(('rectangle', self.box(xy), fill, 0))


class World:
    def __init__(self, variant):
        from x7.geom import geom, model, drawing, colors, transform, bezier
        from PIL import Image
        self.g, self.m, self.d, self.c, self.t, self.b = geom, model, drawing, colors, transform, bezier
        self.v = variant
        self.u = variant.get('unit', 1)
        self.rel = variant.get('rel', False)
        self.named = variant.get('named', False)
        self.odd = variant.get('odd', False)
        self.checks = variant.get('checks', ())
        self.every = variant.get('every', False)
        self.image = Image.new('RGBA', (4, 4), 'white')
        self.roots = {}      # root identity -> element
        self.obj = {}        # identity -> element
        self.n = 0

    def run(self, beh):
        for k, s in enumerate(beh):
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    self.step(s)
                    self.observe(s)
                    if self.every or k == len(beh) - 1:
                        for name in self.checks:
                            for m in s['o']:
                                getattr(self, 'check_' + name)(s, m)
            except Mismatch as e:
                raise Mismatch('step %d %s%s: %s' % (k + 1, s['op'], s['a'], e))
        return len(beh)

    # -- values -------------------------------------------------------------------------------------------------
    def nm(self, n):
        return n if not self.odd or not n else ODD_NAMES.get(n[0], '') + n

    def pt(self, x, y):
        g = self.g
        return g.PointRelative(x - 2, y + 1, g.Point(2, -1)) if self.rel else g.Point(x, y)

    def tr(self, m):
        q, u = m[6], self.u
        return self.t.Transform((m[0] / q, m[1] / q, m[2] / q * u, m[3] / q, m[4] / q, m[5] / q * u))

    def fl(self, m):
        q, u = m[6], self.u
        return m[0] / q, m[1] / q, m[2] / q * u, m[3] / q, m[4] / q, m[5] / q * u

    def color(self, c):
        if c == 'transparent':
            return self.c.TRANSPARENT
        if self.odd and c in ('black', 'red'):
            return (1, 2, 3) if c == 'black' else (10, 20, 30, 255)
        return c

    def pb(self, i):
        from fractions import Fraction
        P = self.pens[i - 1]
        pen = None if not P['p'] else self.c.Pen(self.color(P['p']), float(Fraction(*P['w'])))
        return self.c.PenBrush(pen, self.color(P['b']) if P['b'] else None)

    def cp(self, p, k):
        u, g = self.u, self.g
        return self.b.ControlPoint(self.pt(p[0] * u, p[1] * u), g.Vector(p[2] * u, p[3] * u), g.Vector(p[4] * u, p[5] * u), k)

    def build(self, n):
        """a leaf"""
        m, u, g = self.m, self.u, n['g']
        xf = None if n['x'] == [1, 0, 0, 0, 1, 0, 1] and not self.odd else self.tr(n['x'])
        nm, pb = self.nm(n['n']), self.pb(n['pb'])
        if n['t'] == 'curve':
            return m.ElemCurve(nm, pb, [self.cp(p, k) for p, k in zip(g, n['k'])], n['cl'], xf)
        p1, p2 = self.pt(g[0] * u, g[1] * u), self.pt(g[2] * u, g[3] * u)
        if self.named:
            p1.name, p2.name = 'low', 'fixed_high'
        if n['t'] == 'rect':
            return m.ElemRectangle(nm, pb, p1, p2, xform=xf)
        if n['t'] == 'ellipse':
            return m.ElemEllipse(nm, pb, p1, p2, xform=xf)
        return m.ElemRectangleRounded(nm, pb, p1, p2, g[4] * u, xform=xf)

    def group(self, n, kids):
        m, xf = self.m, self.tr(n['x'])
        pts = {}
        nm, pb = self.nm(n['n']), self.pb(n['pb'])
        self.n += 1
        if self.n % 3 == 0:
            e = m.Group(nm, pb, n['hid'], xf, {k.name: k for k in kids}, pts, n['cl'])
        elif self.n % 3 == 1:
            e = m.Group(nm, pb, n['hid'], xf, list(kids), pts, n['cl'])
        else:
            e = m.Group(nm, pb, n['hid'], xf, points=pts, closed=n['cl'])
            for k in kids:
                e.add(k.name, k)
        for p in n['pts']:
            e.add_pt(self.nm(p[0]), self.g.Point(p[1] * self.u, p[2] * self.u))
        return e

    # -- steps --------------------------------------------------------------------------------------------------
    def step(self, s):
        op, a, u = s['op'], s['a'], self.u
        obj, m, g = self.obj, self.m, self.g
        new = s['o'][-1] if s['o'] else None
        E = None
        if op == 'leaf':
            E = self.build(new['v'][0])
        elif op == 'group':
            E = self.group(new['v'][0], [self.roots[k] for k in a])
        elif op in ('holes', 'nest'):
            n = new['v'][0]
            kids = [self.roots[k] for k in a] if op == 'holes' else []
            if op == 'nest':
                v = new['v']
                for i, k in enumerate(v):
                    if k['d'] == 1:
                        kids.append(self.group(k, [self.build(x) for x in v[i + 1:i + 1 + k['nk']]]) if k['t'] == 'group' else self.build(k))
            E = m.ElemWithHoles(self.nm(n['n']), self.pb(n['pb']), kids[0], kids[1:], True, self.tr(n['x']))
        elif op == 'copy':
            src = obj[a[0]]
            E = src.copy()
            ensure(type(E) is type(src) and E is not src, 'copy() gave', type(E).__name__)
            ensure(E == src, 'the copy is not equal to the original')
        elif op == 'transform':
            t = self.tr(a[1])
            keep = t.as_6tuple()
            E = obj[a[0]].transform(t)
            ensure(t.as_6tuple() == keep and t.stack == [], 'transform() changed the matrix')
            ensure(type(E) is type(obj[a[0]]) and E is not obj[a[0]], 'transform() gave', type(E).__name__)
        elif op == 'restore':
            obj[a[0]].restore(obj[a[1]])
            ensure(self.named or obj[a[0]] == obj[a[1]], 'the restored element is not equal to the snapshot')
        elif op == 'movecp':
            cp = obj[a[0]].control_points[a[1] - 1]
            if a[2] == 1:
                self.place(cp, 'c', a[3] * u, a[4] * u)
            elif a[2] == 3:
                self.place(cp, 'dl', a[3] * u, a[4] * u)
            else:
                self.place(cp, 'dr', a[3] * u, a[4] * u)
        elif op == 'setkind':
            obj[a[0]].control_points[a[1] - 1].kind = a[2]
        elif op == 'corner':
            self.place(obj[a[0]], 'p1' if a[1] == 1 else 'p2', a[2] * u, a[3] * u)
        elif op == 'setbox':
            obj[a[0]].bbox_int_update(g.BBox(*[x * u for x in a[1:]]))
        elif op == 'radius':
            obj[a[0]].radius = a[1] * u
        elif op == 'move':
            t = self.tr(a[1])
            x = obj[a[0]].xform
            self.n += 1
            if self.n % 2:
                x.compose_outer(t)
            else:
                obj[a[0]].xform = t.copy().compose(x)
        elif op == 'setpen':
            pb = self.pb(a[1])
            obj[a[0]].penbrush = pb
            if isinstance(obj[a[0]], m.ElemWithHoles):
                for part in [obj[a[0]].outside] + list(obj[a[0]].inside):
                    part.penbrush = pb
        elif op == 'closed':
            obj[a[0]].closed = a[1]
        elif op == 'rename':
            obj[a[0]].name = self.nm(a[1])
        elif op == 'hide':
            obj[a[0]].hidden = a[1]
        elif op == 'addkid':
            k = self.roots[a[1]]
            obj[a[0]].add(k.name, k)
        elif op == 'delkid':
            e = obj[a[0]].elems
            del e[list(e)[a[1] - 1]]
        elif op == 'delhole':
            obj[a[0]].inside.pop(a[1] - 2)
        elif op == 'scribble':
            self.scribble(obj[a[0]])
        elif op in ('drop', 'ctx'):
            pass
        else:
            raise RuntimeError(op)
        if E is not None:
            self.roots[new['r']] = E
        live = [r['r'] for r in s['o']]
        self.roots = {r: self.roots[r] for r in live}
        self.obj = {}

    def place(self, owner, attr, x, y):
        """move a point or vector, in place or by assigning another one"""
        self.n += 1
        if self.n % 3 and isinstance(getattr(owner, attr), (self.g.Point, self.g.Vector)):
            getattr(owner, attr).setxy(x, y)
        else:
            setattr(owner, attr, (self.g.Vector if attr in ('dl', 'dr') else self.g.Point)(x, y))

    def scribble(self, e):
        if isinstance(e, self.m.ElemCurve):
            for cp in e.control_points:
                if isinstance(cp.c, self.g.Point):
                    cp.c.setxy(cp.c.x + 101, cp.c.y - 77)
                cp.dl.setxy(31, 32)
                cp.dr.setxy(33, 34)
                cp.kind = 'sharp' if cp.kind != 'sharp' else 'smooth'
        else:
            e.p1.setxy(e.p1.x - 55, e.p1.y - 66)
            e.p2.setxy(e.p2.x + 77, e.p2.y + 88)
        e.xform.translate(1001, 1002)

    # -- observation --------------------------------------------------------------------------------------------
    def kids(self, e):
        if isinstance(e, self.m.Group):
            return list(e.elems.values())
        if isinstance(e, self.m.ElemWithHoles):
            return [e.outside] + list(e.inside)
        return []

    def observe(self, s):
        self.scale = 1.0
        for m in s['o']:
            for n in m['v']:
                for x in n['a'] + n['x']:
                    self.scale = max(self.scale, abs(x) * max(self.u, 1e-3))
                for p in n['o']['p']:
                    self.scale = max(self.scale, *(abs(x) / n['o']['q'] * self.u for x in p))
        for m in s['o']:
            self.want = {}
            pos = [0]
            self.bind(m, pos, self.roots[m['r']], IDENT)
            ensure(pos[0] == len(m['v']), 'missing elements')

    KIND = dict(curve='ElemCurve', rect='ElemRectangle', ellipse='ElemEllipse', rrect='ElemRectangleRounded', group='Group', holes='ElemWithHoles')

    def bind(self, m, pos, e, world):
        ensure(pos[0] < len(m['v']), 'too many elements')
        n = m['v'][pos[0]]
        pos[0] += 1
        at = '%s (%s)' % (n['path'], n['t'])
        ensure(type(e).__name__ == self.KIND[n['t']], at, 'is a', type(e).__name__)
        ensure(e.name == self.nm(n['n']), at, 'has name %r' % e.name)
        ensure(e.penbrush == self.pb(n['pb']), at, 'has pen %r, expected %r' % (e.penbrush, self.pb(n['pb'])))
        ensure(e.closed is n['cl'], at, 'closed =', e.closed)
        self.obj[n['i']] = e
        x = e.xform.as_6tuple()
        ensure(e.xform.stack == [], at, 'has saved maps left in its transform')
        if n['rep'] and not n['wild']:
            ensure(all(near(p, q, self.scale) for p, q in zip(x, self.fl(n['x']))), at, 'has transform', x, 'expected', self.fl(n['x']))
        world = mul(world, x)
        if n['t'] == 'group':
            ensure(e.hidden == n['hid'], at, 'hidden =', e.hidden)
            ensure({k: p.xy() for k, p in e.points.items()} == {self.nm(p[0]): (p[1] * self.u, p[2] * self.u) for p in n['pts']}, at, 'has points', e.points)
            ensure(all(k == c.name for k, c in e.elems.items()), at, 'keys are', list(e.elems), 'names', [c.name for c in e.elems.values()])
        elif n['t'] != 'holes' and not n['wild']:
            if n['rep']:
                self.shape(at, n, e)
            self.same_outline(at, n, [(cp.c.xy(), cp.l.xy(), cp.r.xy()) for cp in e.as_digi_points()], world, self.expect(n))
            if n['t'] == 'curve':
                ensure([cp.kind for cp in e.control_points] == n['k'], at, 'has kinds', [cp.kind for cp in e.control_points])
        ks = self.kids(e)
        ensure(len(ks) == n['nk'], at, 'has %d children, expected %d' % (len(ks), n['nk']))
        for k in ks:
            self.bind(m, pos, k, world)

    def shape(self, at, n, e):
        u, g = self.u, n['g']
        if n['t'] == 'curve':
            got = [cp.c.xy() + cp.dl.xy() + cp.dr.xy() for cp in e.control_points]
            ensure(len(got) == len(g) and all(near(x, y * u, self.scale) for p, q in zip(got, g) for x, y in zip(p, q)), at, 'has points', got, 'expected', g)
        else:
            got = e.p1.xy() + e.p2.xy() + ((e.radius,) if n['t'] == 'rrect' else ())
            ensure(len(got) == len(g) and all(near(x, y * u, self.scale) for x, y in zip(got, g)), at, 'has corners', got, 'expected', g)

    def expect(self, n, ctx=None):
        """(c, l, r) of the outline in the world (of a context)"""
        q, k, u = n['o']['q'], KAPPA if n['o']['kap'] else 1, self.u
        out = []
        for p in n['o']['p']:
            c = (p[0] / q * u, p[1] / q * u)
            t = [c, (c[0] + k * p[2] / q * u, c[1] + k * p[3] / q * u), (c[0] + k * p[4] / q * u, c[1] + k * p[5] / q * u)]
            out.append(tuple(app(ctx, x) for x in t) if ctx else tuple(t))
        return out

    def same_outline(self, at, n, cps, world, want, what='outline', corners=False):
        got = [tuple(app(world, x) for x in p) for p in cps]
        sc = self.scale * max(1, max(abs(x) for x in world))
        if n['t'] == 'curve':
            ensure(same_cps(got, want, sc), at, what, got, 'expected', want)
        else:
            if n['t'] == 'rrect':
                got, want = merged(got, sc), merged(want, sc)
            ensure(any(same_cps(w, got, sc) for w in rotations(want)), at, what, got, 'expected (in any order)', want)

    def same_path(self, at, n, pts, want, closed, sc):
        """pts is a flattened version of the outline"""
        if n['t'] == 'rrect':
            want = merged(want, sc)
            # sides that vanish up to rounding may be left as runs of the same point
            pts = [p for i, p in enumerate(pts) if i == 0 or not near_xy(p, pts[i - 1], sc, 1e-9)]
        segs = len(want) if closed else len(want) - 1
        if segs <= 0:
            ensure(len(pts) <= 1, at, 'is drawn as', pts)
            return
        k = (len(pts) - 1) / segs
        ensure(k == int(k) and k >= 1, at, 'is drawn with %d points for %d segments' % (len(pts), segs))
        ensure(k > 1 or n['t'] == 'rect', at, 'is drawn with corners only')
        for w in ([want] if n['t'] == 'curve' else rotations(want)):
            if near_xy(w[0][0], pts[0], sc) and all(near_xy(x, y, sc) for x, y in zip(polyline(w, closed, int(k)), pts)):
                return
        raise Mismatch('%s is drawn along %s, expected %d points per segment on %s' % (at, pts[:9], k, want))

    def dc(self, ctx, **kw):
        dc = self.d.DrawingContext(self.image, self.t.Transform(ctx), **kw)
        dc.debug = False
        return dc

    def tame(self, m):
        return not any(n['wild'] for n in m['v'])

    def leaves(self, m, hidden=True):
        """leaves in order; without those in hidden groups unless hidden"""
        out, cut = [], None
        for n in m['v']:
            if cut is not None and n['d'] > cut:
                continue
            cut = None
            if n['t'] == 'group':
                if n['hid'] and not hidden:
                    cut = n['d']
            elif n['t'] != 'holes':
                out.append(n)
        return out

    # -- traversals (C11, C13) -------------------------------------------------------------------------------------
    def ctxs(self, s):
        return [self.fl(self.ctx[s['c'] - 1]['m'])]

    def check_cpaths(self, s, m):
        if not self.tame(m):
            return
        for ctx in self.ctxs(s):
            e = self.roots[m['r']]
            got = e.control_paths(self.dc(ctx))
            want = self.leaves(m, hidden=False)
            ensure(len(got) == len(want), '%d control paths for %d visible shapes' % (len(got), len(want)))
            for cp, n in zip(got, want):
                w = self.expect(n, ctx)
                if n['t'] == 'rect':
                    cps = [(p.xy(), p.xy(), p.xy()) for p in cp.points]
                else:
                    cps = [(p.c.xy(), p.l.xy(), p.r.xy()) for p in cp.points]
                self.same_outline(n['path'], n, cps, IDENT, w, 'control path')

    def paths_of(self, m):
        """What paths() should give: [(leaves, pen, fill, closed)]"""
        out = []
        v = m['v']

        def go(i):
            n = v[i]
            j = i + 1
            parts = []
            for _ in range(n['nk']):
                j, p = go(j)
                parts += p
            P = self.pb(n['pb'])
            if n['t'] == 'group':
                return j, [] if n['hid'] else parts
            if n['t'] == 'holes':
                edges = [(p[0], P.pen, None, p[3]) for p in parts]
                if P.brush:
                    edges = [([x for p in parts for x in p[0]], None, P.brush, parts[0][3])] + edges
                return j, edges
            return j, [([n], P.pen, P.brush, n['cl'])]
        return go(0)[1]

    def check_paths(self, s, m):
        if not self.tame(m):
            return
        for ctx in self.ctxs(s):
            dc = self.dc(ctx)
            got = self.roots[m['r']].paths(dc)
            want = self.paths_of(m)
            ensure(len(got) == len(want), '%d paths, expected %d' % (len(got), len(want)))
            for p, (src, pen, fill, closed) in zip(got, want):
                at = '+'.join(n['path'] for n in src)
                ensure(p.penbrush.pen == pen and p.penbrush.brush == fill, 'path of', at, 'has', p.penbrush, 'expected', pen, fill)
                ensure(p.closed is closed, 'path of', at, 'closed =', p.closed)
                self.trace(dc, ctx, src, Rec.pts(p.points), at)

    def trace(self, dc, ctx, src, pts, at):
        """pts runs along the outlines of src, one after the other, coming back to the end of the first after each"""
        sc = self.scale * max(1, max(abs(x) for x in ctx))
        base = None
        for k, n in enumerate(src):
            ln = len(Rec.pts(self.obj[n['i']].paths(dc)[0].points))
            part, pts = pts[:ln], pts[ln:]
            self.same_path(at, n, part, self.expect(n, ctx), n['cl'], sc)
            if k == 0:
                base = part[-1] if part else None
            else:
                ensure(pts and near_xy(pts[0], base, sc), at, 'does not come back to the outside after a hole')
                pts = pts[1:]
        ensure(pts == [], at, 'has points left over', pts[:4])

    def check_iter(self, s, m):
        e = self.roots[m['r']]
        want = self.leaves(m)
        top = m['v'][0]
        if top['t'] in ('group', 'holes'):
            for root, mat in ((None, None), ('rr', self.t.Transform(self.ctxs(s)[0]))):
                got = [(name, x, mx.as_6tuple()) for name, x, mx in e.iter_elems(root, mat)]
                ensure(len(got) == len(want), 'iter_elems gives %d elements, expected %d' % (len(got), len(want)))
                for (name, x, mx), n in zip(got, want):
                    path = self.path(n, root)
                    ensure(name == path, 'iter_elems names %r, expected %r' % (name, path))
                    ensure(x is self.obj[n['i']], 'iter_elems gives another element as', name)
                    if all(k['rep'] for k in m['v'] if k['t'] in ('group', 'holes')) and self.tame(m):
                        a = self.fl(n['a'])
                        a = mul(self.ctxs(s)[0], a) if mat else a
                        ensure(all(near(p, q, self.scale) for p, q in zip(mx, a)), 'iter_elems places', name, 'with', mx, 'expected', a)
                    elif not n['wild']:
                        w = mul(mx, x.xform.as_6tuple())
                        c = self.ctxs(s)[0] if mat else IDENT
                        self.same_outline(name, n, [(cp.c.xy(), cp.l.xy(), cp.r.xy()) for cp in x.as_digi_points()], w, self.expect(n, c), 'place in iter_elems')
            if self.tame(m):
                self.check_iter_transformed(s, m, e)
            self.check_parts(e)
        else:
            got = list(e.iter_elems('rr'))
            ensure(len(got) == 1 and got[0][0] == 'rr.' + e.name and got[0][1] is e, 'iter_elems of a shape gives', got)

    def check_parts(self, e):
        """The parts of shapes with holes are found by the names they are iterated under"""
        for k in self.kids(e):
            self.check_parts(k)
        if isinstance(e, self.m.ElemWithHoles):
            ensure(e.lookup('outside.' + e.outside.name) is e.outside, 'lookup of the outside of', e.name)
            for k in e.inside:
                ensure(e.lookup('inside.' + k.name) is next(x for x in e.inside if x.name == k.name), 'lookup of the inside', k.name, 'of', e.name)
            for tag in ('outside', 'inside', 'outside.zz', 'inside.zz', e.outside.name, 'within.' + e.outside.name, ''):
                try:
                    got = e.lookup(tag)
                except KeyError:
                    continue
                raise Mismatch('lookup of %r in %s gives %s' % (tag, e.name, got))

    def path(self, n, root):
        parts = n['path'].split('.')
        p = '.'.join(x if x in ('outside', 'inside') else self.nm(x) for x in parts)
        return '%s.%s' % (root, p) if root else p

    def check_iter_transformed(self, s, m, e):
        kids = [k for k, n in enumerate(m['v']) if n['d'] == 1]
        for root, mat in ((None, None), ('rr', self.t.Transform(self.ctxs(s)[0]))):
            ctx = self.ctxs(s)[0] if mat else IDENT
            got = list(e.iter_elems_transformed(root, mat))
            ensure(len(got) == len(kids), 'iter_elems_transformed gives %d elements, expected %d' % (len(got), len(kids)))
            for x, k in zip(got, kids):
                n = m['v'][k]
                path = self.path(n, root)
                ensure(x.name == path, 'iter_elems_transformed names %r, expected %r' % (x.name, path))
                ensure(x is not self.obj[n['i']] and type(x) is type(self.obj[n['i']]), 'iter_elems_transformed gives', x)
                ensure(x.penbrush == self.pb(n['pb']) and x.closed is n['cl'], 'iter_elems_transformed changes pen or closed of', path)
                sub = [n]
                for y in m['v'][k + 1:]:
                    if y['d'] <= n['d']:
                        break
                    sub.append(y)
                self.under(x, sub, ctx)

    def under(self, x, sub, ctx):
        """x looks like the nodes sub (a tree in document order) seen through ctx"""
        pos = [0]

        def go(e, world):
            n = sub[pos[0]]
            pos[0] += 1
            ensure(type(e).__name__ == self.KIND[n['t']], n['path'], 'became', type(e).__name__)
            w = mul(world, e.xform.as_6tuple())
            if n['t'] not in ('group', 'holes'):
                self.same_outline(n['path'], n, [(cp.c.xy(), cp.l.xy(), cp.r.xy()) for cp in e.as_digi_points()], w, self.expect(n, ctx))
            ks = self.kids(e)
            ensure(len(ks) == n['nk'], n['path'], 'has %d children' % len(ks))
            for k in ks:
                go(k, w)
        go(x, IDENT)

    def check_curves(self, s, m):
        if not self.tame(m):
            return
        got = self.roots[m['r']].as_curves()
        want = self.leaves(m)
        ensure(len(got) == len(want), 'as_curves gives %d curves, expected %d' % (len(got), len(want)))
        for c, n in zip(got, want):
            ensure(type(c) is self.m.ElemCurve and c.name == self.nm(n['n']), 'as_curves gives', c, 'for', n['path'])
            ensure(c.penbrush == self.pb(n['pb']) and c.closed is n['cl'], 'as_curves changes pen or closed of', n['path'])
            self.same_outline(n['path'], n, [(cp.c.xy(), cp.l.xy(), cp.r.xy()) for cp in c.control_points], c.xform.as_6tuple(), self.expect(n), 'as_curves')
            if n['t'] == 'curve':
                ensure([cp.kind for cp in c.control_points] == n['k'], 'as_curves changes the kinds of', n['path'])

    def check_bbox(self, s, m):
        if not self.tame(m) or not m['b'] or not all(k['rep'] for k in m['v']):
            return
        e = self.roots[m['r']]
        bb = e.bbox()
        xs, ys = [], []
        for n in self.leaves(m):
            w = self.expect(n)
            for x, y in polyline(w, n['cl'], 1 if n['t'] == 'rect' else 8) or [w[0][0]]:
                xs.append(x)
                ys.append(y)
        u, q = self.u, m['b'][4]
        lo = [v / q * u for v in m['b'][:4]]
        eps = 1e-9 * self.scale
        ensure(bb.xl <= min(xs) + eps and bb.yl <= min(ys) + eps and bb.xh >= max(xs) - eps and bb.yh >= max(ys) - eps,
               'bbox', bb, 'does not contain the outline', min(xs), min(ys), max(xs), max(ys))
        ensure(bb.xl >= lo[0] - eps and bb.yl >= lo[1] - eps and bb.xh <= lo[2] + eps and bb.yh <= lo[3] + eps, 'bbox', bb, 'is larger than that of the control points', lo)
        c = e.center()
        ensure(near_xy(c.xy(), ((bb.xl + bb.xh) / 2, (bb.yl + bb.yh) / 2), self.scale), 'center', c)

    # -- dump (C16) -------------------------------------------------------------------------------------------------
    def exact(self, a, b, at):
        ensure(type(a) is type(b), at, 'came back as', type(b).__name__)
        at = '%s/%s' % (at, a.name)
        ensure(a.name == b.name, at, 'came back as', b.name)
        ensure(a.penbrush == b.penbrush, at, 'came back with', b.penbrush, 'was', a.penbrush)
        ensure(a.closed is b.closed, at, 'closed came back as', b.closed)
        ensure(a.xform.as_6tuple() == b.xform.as_6tuple(), at, 'transform came back as', b.xform)
        if isinstance(a, self.m.ElemCurve):
            ensure([repr(c.fixed()) for c in a.control_points] == [repr(c) for c in b.control_points] and a.control_points == b.control_points, at, 'points came back as', b.control_points)
        elif isinstance(a, self.m.ElemP1P2):
            ensure(a.p1.xy() == b.p1.xy() and a.p2.xy() == b.p2.xy(), at, 'corners came back as', b.p1, b.p2)
            ensure(getattr(a, 'radius', None) == getattr(b, 'radius', None), at, 'radius came back as', getattr(b, 'radius', None))
        ka, kb = self.kids(a), self.kids(b)
        if isinstance(a, self.m.Group):
            ensure(a.hidden == b.hidden, at, 'hidden came back as', b.hidden)
            ensure({k: p.xy() for k, p in a.points.items()} == {k: p.xy() for k, p in b.points.items()}, at, 'points came back as', b.points)
            ensure(list(b.elems) == sorted(a.elems), at, 'children came back as', list(b.elems))
            ka = [a.elems[k] for k in b.elems]
        ensure(len(ka) == len(kb), at, 'has %d children' % len(kb))
        for x, y in zip(ka, kb):
            self.exact(x, y, at)

    def check_dump(self, s, m):
        from x7.geom.model import DumpContext, GroupBuilder
        from x7.geom.colors import PensByShape
        e = self.roots[m['r']]
        for use_vars in (True, False):
            ways = [lambda x: x.dump(DumpContext(use_vars))]
            if isinstance(e, self.m.Group) and use_vars:
                ways.append(lambda x: x.dump())
                ways.append(lambda x: GroupBuilder('gb', PensByShape(), group=x).dump())
            texts = []
            for way in ways:
                text = way(e).output()
                texts.append(text)
                env = {}
                try:
                    exec(text, env)
                except Exception as ex:
                    raise Mismatch('the dump does not evaluate: %s: %s\n%s' % (type(ex).__name__, ex, text))
                back = env['model']
                self.exact(e, back, '')
                again = way(back).output()
                ensure(again == text, 'dumping again gives another text:\n%s\n--\n%s' % (text, again))
            ensure(len(set(texts)) == 1, 'dumps differ:\n' + '\n--\n'.join(texts))
            # just the expression
            c = DumpContext(use_vars=False)
            e.dump(c)
            if not use_vars:
                env = {}
                exec('\n'.join(c.imports), env)
                self.exact(e, eval(c.output(just_lines=True), env), '')
        self.check_record(e)
        self.observe(s)

    def check_record(self, e):
        """Test data recorded with the model in it loads back the same"""
        import io
        from x7.testing.support import Pickler
        from x7.geom.testing import PicklerExtensionGeom
        es = [e] + self.kids(e)
        xf = self.t.Transform((0.5, 2, -1, 3.25, 1e-3, 7))
        data = {'one': e, 'list': es, 'rows': [(x.name, x, xf) for x in es], 'plain': [self.g.Point(1, 2), self.g.Vector(0.1, -3), e.penbrush, xf],
                'sub': {'one': e, 'deeper': {'rows': [(x.name, x, x.xform) for x in es], 'none': []}}, 'name': e.name}
        out = io.StringIO()
        Pickler(PicklerExtensionGeom).dump_dict(data, out)
        try:
            back = Pickler(PicklerExtensionGeom).load(io.StringIO(out.getvalue()))
        except Exception as ex:
            raise Mismatch('recorded data do not load: %s: %s\n%s' % (type(ex).__name__, ex, out.getvalue()))

        def same(a, b, at):
            if isinstance(a, self.m.Elem):
                self.exact(a, b, at)
                return
            ensure(type(a) is type(b), at, 'of the record came back as', type(b))
            if isinstance(a, (list, tuple)):
                ensure(len(a) == len(b), at, 'of the record has length', len(b))
                for i, (x, y) in enumerate(zip(a, b)):
                    same(x, y, '%s[%d]' % (at, i))
            elif isinstance(a, dict):
                ensure(list(sorted(a)) == list(b), at, 'of the record has', list(b))
                for k in a:
                    same(a[k], b[k], '%s[%s]' % (at, k))
            else:
                ensure(a == b, at, 'of the record came back as', b, 'was', a)
        same(data, back, 'data')

    # -- drawing (C25) ----------------------------------------------------------------------------------------------
    def check_draw(self, s, m):
        if not self.tame(m):
            return
        e = self.roots[m['r']]
        for j, cm in enumerate(m['c']):
            if self.every or (s['c'] + j) % 3 == 0:
                self.draws(m, e, self.fl(self.ctx[j]['m']), cm, prod=True)
        ctx = self.fl(self.ctx[s['c'] - 1]['m'])
        self.draws(m, e, ctx, m['c1'], prod=False)
        self.draws(m, e, ctx, m['cs'], prod=False, shadow='field')
        self.draws(m, e, ctx, m['cs'], prod=False, shadow='call')
        self.draws(m, e, ctx, m['c'][s['c'] - 1], prod=True, dots=True)
        self.draws(m, e, ctx, m['c'][s['c'] - 1], prod=True, cps=True)

    def draws(self, m, e, ctx, want, prod, shadow=None, dots=False, cps=False):
        log = []
        dc = self.dc(ctx, prod=prod)
        dc.draw = Rec(log)
        dc.debug = dots
        dc.show_cps = cps
        shade = (9, 8, 7, 255)
        if shadow == 'field':
            dc.shadow_color = shade
        if shadow == 'call':
            keep = self.d.ImageDraw
            own = []
            dc.draw = Rec(own)

            class Shim:
                @staticmethod
                def Draw(im, mode=None):
                    return Rec(log)
                ImageDraw = keep.ImageDraw
            self.d.ImageDraw = Shim
            try:
                dc.shadow_draw(e, shade)
            finally:
                self.d.ImageDraw = keep
            ensure(own == [], 'shadow_draw drew on the layer')
        else:
            e.draw(dc)
        sc = self.scale * max(1, max(abs(x) for x in ctx))
        if cps:
            log = self.marks(m, ctx, log, sc)
        if dots:
            log = [x for x in log if x[0] != 'ellipse']
        byid = {n['i']: n for n in m['v']}
        what = 'prod' if prod else 'plain'
        ensure(len(log) == len(want), '%s: drew %s, expected %s' % (what, [(x[0], x[2], x[3]) for x in log], want))
        for (k, pts, col, w), c in zip(log, want):
            src = [byid[i] for i in c['src']]
            at = '+'.join(n['path'] for n in src)
            ensure(k == ('polygon' if c['k'] == 'fill' else 'line'), at, 'drawn with', k, 'expected', c['k'])
            wc = shade if c['col'] == 'shade' else self.color(c['col'])
            ensure(col == wc, at, 'drawn in', col, 'expected', wc)
            if c['k'] != 'fill':
                ensure(w == c['w'], at, what, 'drawn with width', w, 'expected', c['w'])
            if c['k'] == 'ring':
                ensure(len(pts) > 1 and near_xy(pts[0], pts[-1], sc), at, 'outline is not closed')
                pts = pts[:-1]
            self.trace(dc, ctx, src, pts, at)

    def marks(self, m, ctx, log, sc):
        """Control points come first: each as a square, with lines and dots for its handles; returns what follows"""
        for n in self.leaves(m, hidden=False):
            w = self.expect(n, ctx)
            got = []
            cnt = None
            if n['t'] == 'rrect':
                cnt = len(self.obj[n['i']].make_control_points())
            for _ in range(cnt or len(w)):
                if n['t'] != 'rect':
                    ensure(len(log) >= 5 and [x[0] for x in log[:5]] == ['line', 'line', 'ellipse', 'ellipse', 'rectangle'], 'control point of', n['path'], 'drawn with', [x[0] for x in log[:5]])
                    (c1, l), (c2, r) = log[0][1], log[1][1]
                    ll, rr, cc = [((x[1][0][0] + x[1][1][0]) / 2, (x[1][0][1] + x[1][1][1]) / 2) for x in log[2:5]]
                    ensure(near_xy(c1, c2, sc) and near_xy(c1, cc, sc) and near_xy(l, ll, sc) and near_xy(r, rr, sc), 'marks of a control point of', n['path'], 'do not agree')
                    got.append((cc, ll, rr))
                    log = log[5:]
                else:
                    ensure(log and log[0][0] == 'rectangle', 'corner of', n['path'], 'drawn with', log[:1])
                    x = log[0]
                    cc = ((x[1][0][0] + x[1][1][0]) / 2, (x[1][0][1] + x[1][1][1]) / 2)
                    got.append((cc, cc, cc))
                    log = log[1:]
            self.same_outline(n['path'], n, got, IDENT, w, 'control points drawn')
        return log


def parse_tables():
    """The same tables as the specification's, for the adapter"""
    import re
    pens = [dict(p=a, w=(int(b), int(c)), b=d) for a, b, c, d in
            re.findall(r'p \|-> "([^"]*)", w \|-> <<(-?\d+), (\d+)>>, b \|-> "([^"]*)"', PENS)]
    ctxs = [dict(m=[int(x) for x in a.split(',')]) for a in re.findall(r'm \|-> <<([^>]*)>>', CTXS)]
    return pens, ctxs


def runner(pens=None, ctx=None):
    p, c = parse_tables()
    World.pens = pens or p
    World.ctx = ctx or c

    def go(beh, variant):
        return World(variant).run(beh)
    return go


MC_TABLES = ([dict(p='red', w=(-2, 1), b='blue')], [dict(m=[2, 0, 7, 0, -2, 90, 1])])
VAR = [dict(unit=1), dict(unit=0.25, named=True), dict(unit=16, odd=True)]
VAR_REL = [dict(unit=1), dict(unit=0.25, rel=True), dict(unit=16, odd=True), dict(unit=0.1)]     # where values need not be kept exactly


def with_checks(variants, *checks, **kw):
    return [dict(v, checks=checks, **kw) for v in variants]


def explore(ctx, checks, ops_mc, sim_ops, num, depth, mc_depth=3, mc_nodes=6, each_step=False, variants=VAR, **kw):
    """Exhaustive small models, then random large ones, replayed with the given checks"""
    mc = ctx.mc('ModelSys', mc_cfg(Ops=ops_mc, Depth=mc_depth, MaxNodes=mc_nodes), name='ModelSys small', timeout=850, heap='8g')
    ctx.count_ops(mc)
    ctx.replay('small models', mc, runner(*MC_TABLES), with_checks([dict(unit=1)], *checks), each=False)
    sim = ctx.sim('ModelSys', sim_cfg(Ops=sim_ops, Depth=depth, **kw), num, depth + 1, procs=6, heap='2g')
    ctx.count_ops(sim)
    ctx.replay('random models', sim, runner(), with_checks(variants, *checks, every=each_step), each=False)


def c11(ctx):
    explore(ctx, ('cpaths', 'paths'), '{"group", "transform", "ctx", "scribble"}', '{"group", "holes", "transform", "ctx", "scribble", "edit", "drop"}',
            ctx.scale(240, 3000), ctx.scale(16, 24), variants=VAR_REL)
    ctx.need_ops('leaf', 'group', 'holes', 'transform', 'scribble')


def c12(ctx):
    explore(ctx, (), '{"group", "holes", "copy", "restore", "edit"}', ALL_OPS, ctx.scale(300, 4000), ctx.scale(22, 30))
    ctx.need_ops('copy', 'restore', 'movecp', 'corner', 'radius', 'move', 'setpen', 'closed', 'rename', 'hide', 'addkid', 'delkid', 'delhole', 'scribble', 'transform')


def c13(ctx):
    explore(ctx, ('cpaths', 'paths', 'iter', 'curves', 'bbox'), '{"group", "holes", "edit", "ctx"}', '{"group", "holes", "ctx", "edit", "transform"}', ctx.scale(200, 3000), ctx.scale(14, 22), variants=VAR_REL)
    ctx.need_ops('leaf', 'group', 'holes', 'nest', 'hide')


def c16(ctx):
    explore(ctx, ('dump',), '{"group", "holes", "edit", "transform"}', '{"group", "holes", "edit", "transform", "copy"}', ctx.scale(200, 3000), ctx.scale(14, 20))
    # wide groups of elements that are nearly alike
    sim = ctx.sim('ModelSys', sim_cfg(Ops='{"group", "holes"}', Depth=8, Types='{"rect", "ellipse"}', MaxKids=5, MaxRoots=5, Maps='{%s}' % ', '.join(NEIGHBOURS)),
                  ctx.scale(120, 2000), 9, procs=6, heap='2g')
    ctx.count_ops(sim)
    ctx.replay('near twins', sim, runner(), with_checks([dict(unit=1), dict(unit=2.0 ** -12)], 'dump', every=True), each=False)
    ctx.need_ops('leaf', 'group', 'holes', 'nest', 'hide', 'transform')


def c25(ctx):
    explore(ctx, ('draw',), '{"group", "holes", "edit", "ctx", "draw"}', '{"group", "holes", "ctx", "edit", "draw"}', ctx.scale(160, 2400), ctx.scale(12, 20), variants=VAR_REL)
    ctx.need_ops('leaf', 'group', 'holes', 'nest', 'hide', 'ctx')
