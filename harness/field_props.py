"""C22: FieldSys.tla against Mesh and VectorField of x7.geom.vec_field"""
import math
import random

from .core import ensure, near, near_xy, Mismatch
from .tlc import cfg


def rat(v):
    n, d = v if isinstance(v, tuple) else (v, 1)
    return '<<%d, %d>>' % (n, d)


PLACES = [0, 1, (1, 2), (1, 3), (2, 3), (1, 4), (3, 4), (1, 8), (-1, 4), (-1, 1), (5, 4), (2, 1), (1, 5), (7, 10), (-3, 1)]
SPOTS = '{%s}' % ', '.join('<<%s, %s>>' % (rat(x), rat(y)) for x in PLACES for y in PLACES)
ALL = '{"new", "copy", "scale", "norm", "edit", "lookup", "displace", "equal", "smooth"}'
MESH = ['<<0, 0, 4, 8, 2>>', '<<-10, -10, 10, 30, 5>>', '<<1, -3, 7, -1, 3>>', '<<-6, 2, 0, 11, 4>>', '<<1, -3, 7, -1, 4>>']
SIM = dict(Meshes='{%s}' % ', '.join(MESH), Values='-9..9', Scales='{<<1, 1>>, <<2, 1>>, <<-1, 1>>, <<1, 2>>, <<0, 1>>, <<-3, 4>>, <<5, 1>>}', Spots=SPOTS,
           MaxFields=7, Depth=24, Lim=4000, Sample='TRUE', Ops=ALL)
MC1 = dict(SIM, Meshes='{<<0, 0, 4, 8, 2>>}', Values='{0, 3}', Scales='{<<-1, 2>>, <<1, 1>>}', Spots='{<<<<1, 4>>, <<1, 1>>>>, <<<<-1, 2>>, <<1, 3>>>>}',
           MaxFields=1, Depth=2, Sample='FALSE', Ops='{"new", "lookup", "norm", "edit", "smooth"}')
MC2 = dict(MC1, Values='{-2}', Spots='{<<<<1, 4>>, <<1, 1>>>>}', MaxFields=3, Depth=4, Ops='{"new", "copy", "scale", "edit", "equal", "norm", "lookup", "smooth"}')


class World:
    def __init__(self, variant):
        import numpy
        from x7.geom import vec_field, geom
        self.n, self.f, self.g = numpy, vec_field, geom
        self.v = variant
        self.u = variant.get('unit', 1)         # of places
        self.w = variant.get('len', 1)          # of vectors
        self.fi, self.spec = [], []

    def mesh(self, me):
        u = self.u
        xl, yl, xh, yh, n = me
        b = self.g.BBox(xl * u, yl * u, xh * u, yh * u) if not self.v.get('swap') else self.g.BBox(xh * u, yh * u, xl * u, yl * u)
        return self.f.Mesh(b, n) if self.v.get('unit') else self.f.Mesh(b, steps=n)

    def at(self, f, p):
        xl, yl, xh, yh, n = f['me']
        (a, b), (c, d) = p
        return (xl + (xh - xl) * a / b) * self.u, (yl + (yh - yl) * c / d) * self.u

    def scale_of(self, f):
        return (1 / math.sqrt(f['m']) if f['m'] else self.w) / f['q']

    def array(self, g):
        return self.n.array([[float(v) * self.w for v in row] for row in g])

    def vec(self, r):
        x, y, q, m = r
        k = (1 / math.sqrt(m) if m else self.w) / q
        return x[0] / x[1] * k, y[0] / y[1] * k

    def step(self, s):
        op, a, r, np = s['op'], s['a'], s['r'], self.n
        fi = self.fi
        new = None
        if op == 'zeros':
            new = self.mesh(a[0]).zeros() if self.v.get('swap') else self.f.VectorField(self.mesh(a[0]))
        elif op == 'given':
            new = self.f.VectorField(self.mesh(a[0]), self.array(r['x']), self.array(r['y']))
        elif op == 'uniform':
            random.seed(len(fi))
            m = self.mesh(a[0])
            f = m.uniform(3)
            vals = list(f.vx.flat) + list(f.vy.flat)
            ensure(all(-3 <= v <= 3 for v in vals) and (len(set(vals)) == len(vals)), 'uniform(3) gives', vals)
            n = a[0][4]
            for i in range(n):
                for j in range(n):
                    p = self.at({'me': a[0]}, ((i, n - 1), (j, n - 1)))
                    ensure(near_xy(f.lookup(*p), (f.vx[i, j], f.vy[i, j]), 3), 'at node', (i, j), 'uniform field has', f.lookup(*p))
            ensure(m == self.mesh(a[0]) and not m != self.mesh(a[0]), 'equal meshes differ')
        elif op == 'copy':
            new = fi[a[0] - 1].copy()
            ensure(new == fi[a[0] - 1], 'a copy is not equal')
        elif op == 'scaled':
            new = fi[a[0] - 1].scaled(*[x / y for x, y in a[1:]])
        elif op == 'normalized':
            new = fi[a[0] - 1].normalized()
        elif op == 'edit':
            k, (i, j), v, w = a
            fi[k - 1].vx[i - 1, j - 1], fi[k - 1].vy[i - 1, j - 1] = v * self.w, w * self.w
            self.spec[k - 1] = r
        elif op == 'assign':
            fi[a[0] - 1].vx = self.array(r['x'])
            self.spec[a[0] - 1] = r
        elif op == 'lookup':
            k, p = a
            at = self.at(self.spec[k - 1], p)
            got, want = fi[k - 1].lookup(*at), self.vec(r[0])
            ensure(near_xy(got, want, self.mag(k)), 'field %d at' % k, at, 'is', got, 'expected', want)
        elif op == 'smoothed':
            f = fi[a[0] - 1]
            got = f.smoothed()
            ensure(type(got) is self.f.VectorField and got is not f and got.mesh == f.mesh, 'smoothing gives', got)
            x, y, c = (np.array(g, dtype=float) for g in r)
            x, y = x / c, y / c
            top = float(np.sqrt(x * x + y * y).max()) or 1.0
            for n, w, v in (('x', x, got.vx), ('y', y, got.vy)):
                ensure(v.shape == w.shape and bool(np.allclose(v, w / top, rtol=1e-9, atol=1e-9)), 'v%s of the smoothed field %d is' % (n, a[0]), v.tolist(), 'expected', (w / top).tolist())
        elif op == 'displace':
            self.displace(a[0], a[1], a[2], r)
        elif op == 'equal':
            got = fi[a[0] - 1] == fi[a[1] - 1]
            ensure(bool(got) is r and bool(fi[a[0] - 1] != fi[a[1] - 1]) is not r, 'fields %d and %d equal:' % tuple(a), got)
        else:
            raise RuntimeError(op)
        if new is not None:
            ensure(all(new is not x for x in fi), op, 'gives an existing field')
            fi.append(new)
            self.spec.append(r)

    def mag(self, k):
        f = self.spec[k - 1]
        m = max(max(abs(v) for row in f[c] for v in row) for c in 'xy')
        return 1 + m * 20 * self.scale_of(f)

    def displace(self, k, how, ps, r):
        f, g = self.fi[k - 1], self.g
        at = [self.at(self.spec[k - 1], p) for p in ps]
        want = [(x + v, y + w) for (x, y), (v, w) in zip(at, map(self.vec, r))]
        if how == 'xy':
            got = [f.transform(*at[0])]
        elif how == 'point':
            p = f.transform_pt(g.Point(*at[0]))
            ensure(type(p) is g.Point and near_xy(f.transform_pt(g.Point(*at[0]), as_pt=False), want[0], self.mag(k) + 100 * self.u), 'transform_pt gives', p)
            got = [p.xy()]
        elif how in ('points', 'flat points'):
            pts = [g.Point(*p) for p in at]
            if how == 'points':
                got = f.transform_pts(pts)
                ensure(all(type(p) is g.Point for p in got), 'transform_pts gives', got)
                got = [p.xy() for p in got]
            else:
                got = f.transform_pts(pts, flatten=True)
            ensure([p.xy() for p in pts] == at, 'the points given have moved')
        else:
            got = f.transform_pts(list(at), True) if how == 'flat' else f.transform_pts(list(at))
            if how == 'pairs':
                ensure(all(type(p) is tuple for p in got), 'transform_pts gives', got)
        if how.startswith('flat'):
            ensure(len(got) == 2 * len(at), 'transform_pts gives', got)
            got = list(zip(got[::2], got[1::2]))
        ensure(len(got) == len(want), how, 'gives', got)
        for x, y in zip(got, want):
            ensure(near_xy(x, y, self.mag(k) + 100 * self.u), how, at, 'gives', got, 'expected', want)

    def look(self):
        for i, (f, w) in enumerate(zip(self.fi, self.spec)):
            k = self.scale_of(w)
            for c, got in (('x', f.vx), ('y', f.vy)):
                want = self.n.array(w[c]) * k
                ensure(got.shape == want.shape and bool(self.n.allclose(got, want, rtol=1e-9, atol=1e-9 * self.mag(i + 1))), 'field %d: v%s is' % (i + 1, c), got.tolist(), 'expected', want.tolist())
            xl, yl, xh, yh, n = w['me']
            b = f.mesh.bbox
            ensure(near_xy((b.xl, b.yl), (xl * self.u, yl * self.u), 100 * self.u) and near_xy((b.xh, b.yh), (xh * self.u, yh * self.u), 100 * self.u) and f.mesh.steps == n, 'field %d: mesh' % (i + 1), b, f.mesh.steps)

    def arrows(self):
        """A plot shows at every place the vector that is found there"""
        class Ax:
            def quiver(ax, x, y, u, v, **kw):
                ax.got = x, y, u, v
        for i, f in enumerate(self.fi):
            ax = Ax()
            f.quiver(ax)
            for x, y, u, v in zip(*(self.n.ravel(z).tolist() for z in ax.got)):
                ensure(near_xy(f.lookup(x, y), (u, v), self.mag(i + 1)), 'field %d: the plot has' % (i + 1), (u, v), 'at', (x, y), 'the field', f.lookup(x, y))

    def run(self, beh):
        for k, s in enumerate(beh):
            try:
                self.step(s)
                self.look()
                if k == len(beh) - 1:
                    self.arrows()
            except Mismatch as e:
                raise Mismatch('step %d %s%s: %s' % (k + 1, s['op'], s['a'], e))
        return len(beh)


def play(beh, variant):
    return World(variant).run(beh)


def c22(ctx):
    V = [dict(), dict(unit=0.1, len=16, swap=True), dict(unit=64, len=0.1)]
    kw = dict(invariants=('NodeValues', 'Twice', 'Even'), properties=('OnlyEdited',), view='View', action_constraint='EmitStep')
    for name, c in (('all small fields', MC1), ('copies', MC2)):
        b = ctx.mc('FieldSys', cfg(constants=c, **kw), name='FieldSys: ' + name, workers=6, timeout=850, heap='6g')
        ctx.count_ops(b)
        ctx.replay(name, b, play, V, each=False)
    b = ctx.sim('FieldSys', cfg(spec='Walk', constants=SIM, invariants=('NodeValues', 'Twice', 'EmitFull')), ctx.scale(1500, 15000), SIM['Depth'] + 1, procs=6, heap='2g')
    ctx.count_ops(b)
    ctx.replay('random fields', b, play, V, each=False)
    ctx.need_ops('zeros', 'given', 'uniform', 'copy', 'scaled', 'normalized', 'edit', 'assign', 'lookup', 'displace', 'equal', 'smoothed')
