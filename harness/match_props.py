"""C30: MatchSys.tla against TestCaseGeomExtended of x7.geom.testing"""
import math

from .core import ensure, Mismatch
from .tlc import cfg

NUDGES = '{1, -1, 7, -30, 80, -600, 30000, -200000, 1000000, -40000000, 300000000, 600000000}'
SIM = dict(Kinds='{"point", "vector", "rel", "cp"}', Nudges=NUDGES, Deltas='{3, 100, 5000, 400000, 6000000, 350000000, 850000000}', Places='{0, 1, 2, 3, 4, 5, 6, 8}',
           MaxItems=4, Depth=24, Sample='TRUE')
MC = dict(SIM, Nudges='{-7, 60000, 400000000}', Deltas='{20, 700000, 500000000}', Places='{0, 3, 6}', MaxItems=1, Depth=5, Sample='FALSE')


class World:
    def __init__(self, variant):
        from x7.geom import geom, bezier, testing
        self.g, self.b = geom, bezier
        self.v = variant

        class Case(testing.TestCaseGeomExtended):
            SAVE_MATCH = False

            def runTest(self):
                pass
        self.case = Case()
        self.unit = variant.get('unit', 1e-9)
        self.base = 1000 if variant.get('far') else 1
        self.it, self.off, self.alt = [], [], set()

    def item(self, i, new):
        g, k = self.g, self.it[i]
        off = self.off[i] if new else [0] * len(self.off[i])
        xs = [self.base * (3 * c + i - 4) / 8 + o * self.unit for c, o in enumerate(off)]
        alt = new and i in self.alt
        if k == 'cp':
            return self.b.ControlPoint(g.Point(*xs[:2]), g.Vector(*xs[2:4]), g.Vector(*xs[4:]), 'smooth' if alt else 'sharp')
        if k == 'rel':
            o = g.Point(2, -1)
            return (g.Point if alt else lambda x, y: g.PointRelative(x - 2, y + 1, o))(*xs)
        return ((g.Point if k == 'point' else g.Vector) if not alt else (g.Vector if k == 'point' else g.Point))(*xs)

    def almost(self, a, b, kw):
        try:
            self.case.assertAlmostEqual(a, b, **kw)
            return True
        except self.case.failureException as e:
            ensure(len(str(e)) > 3, 'no explanation for', a, b)
            return False

    def step(self, s):
        op, a, r = s['op'], s['a'], s['r']
        if op == 'add':
            self.it.append(a[0])
            self.off.append([0] * (6 if a[0] == 'cp' else 2))
        elif op == 'nudge':
            self.off[a[0] - 1][a[1] - 1] += a[2]
        elif op == 'even':
            self.off[a[0] - 1] = [0] * len(self.off[a[0] - 1])
        elif op == 'turn':
            self.alt ^= {a[0] - 1}
        else:
            kw = {} if a[0] == 'default' else {a[0]: a[1] * (self.unit if a[0] == 'delta' else 1)}
            old = [self.item(i, False) for i in range(len(self.it))]
            new = [self.item(i, True) for i in range(len(self.it))]
            if self.v.get('swap'):
                old, new = new, old
            if self.v.get('unit') and a[0] != 'delta':
                return
            close, same, each = r
            for i, (x, y, w, e, o) in enumerate(zip(old, new, close, same, each)):
                ensure(self.almost(x, y, kw) is w, x, 'and', y, 'with', kw, 'do' if not w else 'do not', 'match')
                if len(o) == 2 and type(x) is type(y) and not w:
                    # the explanation names the coordinates that differ
                    said = self.case.almostEqual(x, y, **kw)
                    ensure(['x: ' in said, 'y: ' in said] == [not ok for ok in o], x, 'and', y, 'with', kw, 'differ in', said)
                m = self.case.matchExact(x, y)
                ensure((m is True) is e, 'match of', x, 'and', y)
                d = max(math.hypot(*self.off[i][c:c + 2]) for c in range(0, len(self.off[i]), 2)) * self.unit
                if m is not True and not 0.99e-11 < d < 1.01e-11:
                    near = d < 1e-11 and (i not in self.alt or self.it[i] == 'rel')
                    if type(x) is type(y):
                        ensure(('Close' in m) is near and ('Diff' in m) is not near, 'match of', x, 'and', y, 'says', m)
            for kind in (list, tuple):
                x, y = kind(old), kind(new)
                ensure(self.almost(x, y, kw) is all(close), x, 'and', y, 'with', kw, 'do' if not all(close) else 'do not', 'match')
                ensure((self.case.matchExact(x, y) is True) is all(same), 'match of', x, 'and', y)
                ensure(self.almost([x, 1], [y, 1], kw) is all(close), 'nested in a list', x, 'and', y, 'with', kw)
            ensure(self.almost(old, new[:-1], kw) is False, 'lists of different lengths match')

    def run(self, beh):
        for k, s in enumerate(beh):
            try:
                self.step(s)
            except Mismatch as e:
                raise Mismatch('step %d %s%s: %s' % (k + 1, s['op'], s['a'], e))
        return len(beh)


def play(beh, variant):
    return World(variant).run(beh)


def c30(ctx):
    V = [dict(), dict(swap=True), dict(far=True), dict(unit=2e-14)]
    b = ctx.mc('MatchSys', cfg(constants=MC, invariants=('Sound',), view='View', action_constraint='EmitCompare'), name='MatchSys: one item', workers=6, timeout=850, heap='6g')
    ctx.count_ops(b)
    ctx.replay('one item', b, play, V, each=False)
    b = ctx.sim('MatchSys', cfg(spec='Walk', constants=SIM, invariants=('EmitFull',)), ctx.scale(1500, 15000), SIM['Depth'] + 1, procs=6, heap='2g')
    ctx.count_ops(b)
    ctx.replay('lists of items', b, play, V, each=False)
    ctx.need_ops('add', 'nudge', 'even', 'turn', 'compare')
