"""C15: NamesSys.tla against Group and GroupBuilder"""
import contextlib
import io

from .core import ensure, raises, Mismatch
from .tlc import cfg

MC = dict(Names='{<<"a">>, <<"b">>, <<"a", "b">>}', Leafs='{"curve"}', Values='{1}', MaxObjs=4, MaxKids=3, MaxPts=0, Depth=5, Sample='FALSE',
          Ops='{"new", "add", "replace", "del"}')
MC2 = dict(MC, Ops='{"new", "make", "groupof", "pts"}', MaxPts=1, Depth=4)
SIM = dict(Names='{<<"a">>, <<"b">>, <<"c">>, <<"curve#0">>, <<"rectangle#1">>, <<"a", "b">>, <<"x", "y", "a">>, <<"group#0">>}',
           Leafs='{"curve", "rectangle", "ellipse", "rectanglerounded"}', Values='{1, 2}', MaxObjs=26, MaxKids=7, MaxPts=4, Depth=40, Sample='TRUE',
           Ops='{"new", "groupof", "add", "make", "replace", "pts", "del"}')
INV = ('Unique', 'KeysAreNames', 'Acyclic', 'NothingLost', 'PlacesKept')


def dot(n):
    return '.'.join(n)


class World:
    def __init__(self, variant):
        from x7.geom import geom, model, colors, bezier
        self.g, self.m, self.c, self.b = geom, model, colors, bezier
        self.builder = variant.get('builder', False)
        self.o = []
        self.pts = {}
        self.made = {}      # group -> its builder

    def run(self, beh):
        for k, s in enumerate(beh):
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    self.step(s)
                    self.observe(s)
            except Mismatch as e:
                raise Mismatch('step %d %s%s: %s' % (k + 1, s['op'], s['a'], e))
        return len(beh)

    def args(self, t, v):
        P, V, m = self.g.Point, self.g.Vector, self.m
        p1, p2 = P(v, 0), P(v + 5, 7)
        if t == 'curve':
            return m.ElemCurve, dict(control_points=[self.b.ControlPoint(p1, V(0, 1), V(1, 0)), self.b.ControlPoint(p2, V(2, 1), V(1, 2))])
        if t == 'rectangle':
            return m.ElemRectangle, dict(p1=p1, p2=p2)
        if t == 'ellipse':
            return m.ElemEllipse, dict(p1=p1, p2=p2)
        return m.ElemRectangleRounded, dict(p1=p1, p2=p2, radius=1)

    def elem(self, t, v, n):
        pb = self.c.PenBrush('red')
        if t == 'group':
            return self.m.Group(n, pb)
        cls, kw = self.args(t, v)
        return cls(n, pb, closed=True, **kw)

    def target(self, g):
        """a group or its builder"""
        e = self.o[g - 1]
        if self.builder:
            if id(e) not in self.made:
                self.made[id(e)] = self.m.GroupBuilder('whatever', self.c.PensByShape(), group=e)
            return self.made[id(e)]
        return e

    def step(self, s):
        op, a, r = s['op'], s['a'], s['r']
        o, m = self.o, self.m
        if op in ('new', 'newgroup'):
            x = s['o'][-1]
            o.append(self.elem(x['t'], x['v'], dot(x['n'])))
        elif op == 'groupof':
            o.append(m.Group(dot(s['o'][-1]['n']), self.c.PenBrush('red'), elems=[o[i - 1] for i in a[0]], fix_names=a[1]))
        elif op == 'add':
            g, e, n = self.target(a[0]), o[a[2] - 1], dot(a[1])
            if r == 'ValueError':
                raises(ValueError, o[a[0] - 1].add, n, e, a[3])
            elif self.builder and not a[3]:
                g.add(n, e)
            else:
                o[a[0] - 1].add(n, e, a[3])
        elif op == 'make':
            g, n = self.m.GroupBuilder('w', self.c.PensByShape(), group=o[a[0] - 1]), dot(a[1])
            pb = self.c.PenBrush('red')
            if a[2] == 'group':
                before = len(o[a[0] - 1].elems)
                if r == 'ValueError':
                    raises(ValueError, g.group, n)
                else:
                    sub = g.group(n)
                    ensure(len(o[a[0] - 1].elems) == before + 1, 'no sub-group was added')
                    sub.the_group.penbrush = pb
                    o.append(sub.the_group)
            else:
                cls, kw = self.args(a[2], a[3])
                call = {'curve': lambda: g.curve(n, kw['control_points'], pb, True), 'rectangle': lambda: g.rect(n, kw['p1'], kw['p2'], pb),
                        'ellipse': lambda: g.ellipse(n, kw['p1'], kw['p2'], pb), 'rectanglerounded': lambda: g.rrect(n, kw['p1'], kw['p2'], kw['radius'], pb)}[a[2]]
                if r == 'ValueError':
                    raises(ValueError, call)
                else:
                    o.append(call())
        elif op == 'replace':
            c = self.target(a[0]).replace(o[a[1] - 1], o[a[2] - 1])
            ensure(c == r, 'replace reports', c, 'replacements, expected', r)
        elif op == 'refused':
            before = self.everything(o[a[0] - 1])
            raises(ValueError, self.target(a[0]).replace, o[a[1] - 1], o[a[2] - 1])
            after = self.everything(o[a[0] - 1])
            ensure(len(after) == len(before), 'a refused replace lost or added elements')
            for x, y in zip(before, after):
                ensure(x is y or y is o[a[2] - 1], 'a refused replace lost', x.name)
            return
        elif op == 'addpt':
            g, p = self.target(a[0]), self.g.Point(a[2], -a[2])
            if r == 'AssertionError':
                raises((AssertionError, ValueError, KeyError), g.add_pt, dot(a[1]), p)
            elif self.builder and a[2] == 1:
                self.pts[a[0], dot(a[1])] = g.point(dot(a[1]), a[2], -a[2])
            else:
                ensure(g.add_pt(dot(a[1]), p) is p, 'add_pt does not return the point')
                self.pts[a[0], dot(a[1])] = p
        elif op == 'del':
            e = o[a[0] - 1].elems
            del e[list(e)[a[1] - 1]]
        else:
            raise RuntimeError(op)

    def everything(self, g):
        """elements of a group that is about to be changed, in order, stopping at what may be replaced"""
        return list(g.elems.values())

    def observe(self, s):
        if s['op'] == 'refused':
            return
        o, m = self.o, self.m
        ensure(len(o) == len(s['o']), 'objects')
        placed = {k[1] for x in s['o'] for k in x['kids']}
        for i, x in enumerate(s['o']):
            e = o[i]
            ensure(e.name == dot(x['n']), 'object %d has name %r, expected %r' % (i + 1, e.name, dot(x['n'])))
            if x['t'] != 'group':
                continue
            keys = [dot(k[0]) for k in x['kids']]
            ensure(list(e.elems) == keys, 'group %s has keys %s, expected %s' % (e.name, list(e.elems), keys))
            for k in x['kids']:
                kid = o[k[1] - 1]
                ensure(e.elems[dot(k[0])] is kid, 'group', e.name, 'has another element under', dot(k[0]))
                ensure(self.target(i + 1).lookup(dot(k[0])) is kid, 'lookup of', dot(k[0]), 'finds another element')
            for n in ('zz', 'curve#7', 'a b', 'a' if 'a' not in keys else 'zzz', 'b.' if 'b' not in keys else 'q'):
                raises(KeyError, e.lookup, n)
            want = {dot(p[0]): p for p in x['pts']}
            ensure(list(e.points) == [dot(p[0]) for p in x['pts']], 'group', e.name, 'has points', list(e.points))
            for n, p in want.items():
                q = self.target(i + 1).lookup_pt(n)
                ensure(q is self.pts[i + 1, n] and q.xy() == (p[1], -p[1]) and q.name == n, 'lookup_pt of', n, 'finds', q)
            for n in ('zz', 'a' if 'a' not in want else 'zzz'):
                raises(KeyError, e.lookup_pt, n)
            if i + 1 not in placed:
                self.paths(s, i, x, o[i])

    def paths(self, s, i, x, e):
        """every dotted path finds its element; iteration gives the same names in the same order"""
        names = []

        def go(j, path):
            for k in s['o'][j]['kids']:
                p = path + [dot(k[0])]
                kid = self.o[k[1] - 1]
                ensure(e.lookup('.'.join(p)) is kid, 'lookup of', '.'.join(p), 'finds another element')
                if s['o'][k[1] - 1]['t'] == 'group':
                    raises(KeyError, e.lookup, '.'.join(p + ['zz']))
                    go(k[1] - 1, p)
                else:
                    raises((KeyError, ValueError), e.lookup, '.'.join(p + ['a']))
                    names.append(('.'.join([e.name] + p), kid))
        go(i, [])
        got = [(n, k) for n, k, _ in e.iter_elems()]
        ensure([n for n, _ in got] == [n for n, _ in names] and all(a[1] is b[1] for a, b in zip(got, names)), 'iter_elems gives', [n for n, _ in got], 'expected', [n for n, _ in names])


def go(beh, variant):
    return World(variant).run(beh)


def c15(ctx):
    for name, c in (('add, replace and delete', dict(MC, Depth=ctx.scale(5, 6), MaxObjs=ctx.scale(4, 5))), ('construction', dict(MC2, Depth=ctx.scale(4, 5)))):
        b = ctx.mc('NamesSys', cfg(constants=c, invariants=INV, view='View', action_constraint='EmitStep'), name='NamesSys: ' + name, timeout=850, heap='8g', workers=6)
        ctx.count_ops(b)
        ctx.replay(name, b, go, [dict(), dict(builder=True)], each=False)
    b = ctx.sim('NamesSys', cfg(spec='Walk', constants=SIM, invariants=INV + ('EmitEnd',)), ctx.scale(1500, 12000), 41, procs=6, heap='2g')
    ctx.count_ops(b)
    ctx.replay('random namespaces', b, go, [dict(), dict(builder=True)], each=False)
    ctx.need_ops('new', 'newgroup', 'groupof', 'add', 'make', 'replace', 'refused', 'addpt', 'del')
