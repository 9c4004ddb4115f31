"""C21: FramesSys.tla against SimpleAnimation of x7.geom.anim_simple and Builder of x7.geom.anim"""
import contextlib
import io
import math

from .core import ensure, near, near_xy, Mismatch
from .tlc import cfg


def rs(*rats):
    return '{%s}' % ', '.join('<<%d, %d>>' % r for r in rats)


RANGES = ['<<<<0, 1>>, <<1, 1>>>>', '<<<<-1, 1>>, <<5, 2>>>>', '<<<<3, 1>>, <<1, 1>>>>', '<<<<1, 3>>, <<7, 6>>>>']
SIM = dict(Ranges='{%s}' % ', '.join(RANGES), Counts='{1, 2, 3, 7, 10}', Times=rs((0, 1), (1, 1), (1, 4), (-1, 2), (5, 3)), Frames='{0, 1, 2, 3, 5, 8}',
           MaxSas=3, MaxAnims=4, MaxOpen=3, MaxFrames=40, Depth=16, Sample='TRUE', Ops='{"simple", "hand", "builder", "fail"}')
MC1 = dict(SIM, Ranges='{%s}' % ', '.join(RANGES[1:3]), Counts='{1, 3}', MaxSas=2, MaxOpen=2, Depth=5, Sample='FALSE', Ops='{"simple", "hand", "fail"}')
MC2 = dict(SIM, Times=rs((0, 1), (5, 3)), Frames='{0, 1, 3}', MaxAnims=2, Depth=4, Sample='FALSE', Ops='{"builder"}')


class Oops(Exception):
    pass


class World:
    def __init__(self, variant):
        from PIL import Image
        from x7.geom import anim, anim_simple, drawing, geom, model, transform, colors, bezier
        self.I, self.a, self.s, self.d, self.g, self.m, self.t, self.c, self.b = Image, anim, anim_simple, drawing, geom, model, transform, colors, bezier
        self.v = variant
        self.sas, self.open, self.log = [], [], []
        self.size = variant.get('size', (24, 16))
        self.mark = 0
        self.fail = None
        self.shown = 0

    # -- marks -------------------------------------------------------------------------------------------------
    def put(self, dc, mark):
        w, h = self.size
        dc.draw.point((mark % w, mark // w % h), fill=(200 + mark // 100, 55 + mark % 100, 111, 255))

    def marks(self, im):
        ensure(im.size == self.size and im.mode == 'RGBA', 'frame is', im)
        w, h = self.size
        out = []
        px = im.load()
        for y in range(h):
            for x in range(w):
                p = px[x, y]
                if p[2] == 111 and p[3] == 255 and p[0] >= 200:
                    m = (p[0] - 200) * 100 + p[1] - 55
                    ensure((m % w, m // w % h) == (x, y), 'stray mark', m, (x, y))
                    out.append(m)
        return out

    def frames(self, images, want, what):
        got = [self.marks(im) for im in images]
        ensure(got == [[m] for m in want], what, 'are', got, 'expected', want)
        ensure(len({id(im) for im in images}) == len(images), what, 'are the same image')

    # -- simple animations -----------------------------------------------------------------------------------------
    BOXES = [(-250, -250, 250, 250), (-10, -20, 30, 70), (0, 1, 5, 3), (-7, -9, -3, -1)]

    def box(self, i):
        return self.BOXES[(i + self.v.get('box', 0)) % 4]

    def maps(self, dc, i):
        xl, yl, xh, yh = self.box(i)
        w, h = self.size
        ensure(dc.layer.size == self.size, 'drawing on', dc.layer.size)
        for x, y, to in ((xl, yl, (0, h)), (xh, yl, (w, h)), (xl, yh, (0, 0)), (xh, yh, (w, 0)), ((xl + xh) / 2, (yl + yh) / 2, (w / 2, h / 2))):
            ensure(near_xy(dc.scale_pt(x, y), to, w + h), 'animation %d maps (%s, %s) to' % (i + 1, x, y), dc.scale_pt(x, y), 'expected', to)

    def new(self, r, n):
        i = len(self.sas)

        def draw(dc, t):
            self.log.append(('draw', i + 1, t))
            self.maps(dc, i)
            self.put(dc, self.mark)
            self.mark += 1
            if self.mark % 3 == 0:
                dc.matrix.translate(3, -2).rotate(30)       # this frame only
            elif self.mark % 3 == 1:
                dc.matrix.push()
            if self.fail == self.mark - 1:
                raise Oops()
        lo, hi = (a / b for a, b in r)
        xl, yl, xh, yh = self.box(i)
        kw = dict(show_steps=True) if self.v.get('show') else {}
        self.sas.append(self.s.SimpleAnimation(draw, image_size=self.size, draw_bbox=(xl, yl, xh, yh) if self.v.get('swap') is None else (xh, yh, xl, yl),
                                               steps=n, t_low=lo, t_high=hi, **kw))

    def calls(self, want):
        ensure(len(self.log) == len(want), 'calls are', self.log, 'expected', want)
        for g, w in zip(self.log, want):
            ensure(g[0] == w[0] and (g[0] == 'model' or g[1] == w[1] and near(g[2], w[2][0] / w[2][1])), 'calls are', self.log, 'expected', want)

    # -- builders ----------------------------------------------------------------------------------------------------
    def stage(self):
        """A real model with two animations of it; draws are logged and marked"""
        g, m, b, c, a = self.g, self.m, self.b, self.c, self.a
        world = self

        class Logged(m.Group):
            def draw(self, dc, *args, **kw):
                world.log.append(('model',))
                ensure(dc.prod is (not world.draft), 'drawn with prod =', dc.prod)
                ensure(near_xy(dc.scale_pt(3, 4), world.matrix0.transform(3, 4), 100), 'drawn through', dc.matrix)
                r = super().draw(dc, *args, **kw)
                world.put(dc, world.mark)
                world.mark += 1
                return r
        pb, fill = c.PenBrush('black'), c.PenBrush('navy', 'teal')
        model = Logged('model', pb, xform=self.t.Transform().translate(1, 2))
        p = g.Point(-4, -3)
        V = g.Vector
        curve = m.ElemCurve('c', pb, [b.ControlPoint(p, V(-1, 1), V(1, 2)), b.ControlPoint(g.Point(3, 4), V(1, 1), V(0, -2))], closed=False)
        src = m.ElemCurve('s', fill, [b.ControlPoint(g.Point(x, y), V(0, 1), V(1, 0)) for x, y in ((0, 0), (4, 1), (2, 5))])
        tgt = m.ElemCurve('t', fill, [b.ControlPoint(g.Point(x, y), V(0, -1), V(1, 0)) for x, y in ((-6, 0), (4, -5), (7, 5), (0, 3))])
        model.add('c', curve)
        model.add('s', src)
        model.add('r', m.ElemRectangle('r', fill, g.Point(-8, 3), g.Point(-6, 6), xform=self.t.Transform().rotate(20)))

        class Log(a.Animation):
            def __init__(self, n, inner):
                super().__init__(g.Point(0, 0))
                self.n, self.inner = n, inner

            def update(self, t):
                world.log.append(('update', self.n, t))
                self.inner.update(t)
        inner = [a.AnimationLinear(p, g.Point(6, 1)), a.Morph(model, src, tgt, lambda t: t), a.AnimationSinusoidal(curve.control_points[1].c, g.Point(9, 9)),
                 a.AnimationCircular(curve.control_points[1].dl, 2) if False else a.AnimationLinearFunc(g.Point(0, 0), g.Point(1, 1), a.Animation.identity())]
        return model, [Log(k + 1, x) for k, x in enumerate(inner)]

    def builder(self):
        self.draft = bool(self.v.get('draft'))
        self.matrix0 = self.t.Transform().scale(1.5, -1).translate(12, 8)
        self.held = []
        base = self.I.new('RGBA', self.size, 'grey')
        model, anims = self.stage()
        holder = self.a.AnimationHolder()
        self.base = base.copy()
        self.bu = self.a.Builder(base, self.matrix0.copy(), model, holder, draft=self.draft)
        self.anims = anims
        if self.v.get('noholder'):
            self.bu = self.a.Builder(base, self.matrix0.copy(), model, draft=self.draft)

    def fresh(self, t, mark):
        """The frame at t, drawn anew"""
        keep = self.log, self.mark
        self.log, self.mark = [], mark
        model, anims = self.stage()
        for x in self.held:
            anims[x - 1].update(t)
        dc = self.d.DrawingContext(self.base.copy(), self.matrix0.copy(), prod=not self.draft)
        model.draw(dc)
        self.log, self.mark = keep
        return dc.image()

    def same(self, im, t, mark):
        want = self.fresh(t, mark)
        ensure(im.tobytes() == want.tobytes(), 'the frame at %s differs from the model at that time' % t)

    # ------------------------------------------------------------------------------------------------------------
    def run(self, beh):
        with contextlib.redirect_stdout(io.StringIO()):
            self.builder()
            keep = self.d.DrawingContext.show

            def show(dc):
                self.shown += 1
            self.d.DrawingContext.show = show
            try:
                for k, s in enumerate(beh):
                    try:
                        self.step(s)
                        self.look(s)
                    except Mismatch as e:
                        raise Mismatch('step %d %s%s: %s' % (k + 1, s['op'], s['a'], e))
            finally:
                self.d.DrawingContext.show = keep
        return len(beh)

    def step(self, s):
        op, a = s['op'], s['a']
        self.log = []
        self.fail = None
        if op == 'new':
            self.new(*a)
        elif op in ('animate', 'fail'):
            i, self.mark, stop = a
            if op == 'fail':
                self.fail = self.mark + stop
                try:
                    self.sas[i - 1].animate()
                except Oops:
                    pass
                else:
                    ensure(False, 'the exception of the drawing function got lost')
            else:
                self.sas[i - 1].animate()
        elif op == 'begin':
            i, mark = a
            step = self.sas[i - 1].next_step()
            dc = step.__enter__()
            ensure(isinstance(dc, self.d.DrawingContext), 'a step gives', dc)
            self.maps(dc, i - 1)
            self.open.append((step, dc, mark))
        elif op == 'end':
            j, fails = a
            step, dc, mark = self.open.pop(j - 1)
            self.put(dc, mark)
            e = Oops()
            ensure(not (step.__exit__(Oops, e, None) if fails else step.__exit__(None, None, None)), 'the step swallows exceptions')
        elif op == 'hold':
            self.held.append(a[0])
            (self.bu.animations if self.v.get('noholder') else self.bu.animations).add(self.anims[a[0] - 1])
        elif op == 'one':
            t, self.mark = a
            m = self.mark
            im = self.bu.build_one(t[0] / t[1]) if t[0] or self.v.get('draft') else self.bu.build_one()
            ensure(self.marks(im) == [m], 'frame has marks', self.marks(im))
            self.same(im, t[0] / t[1], m)
        elif op == 'all':
            n, self.mark = a
            m = self.mark
            ims = self.bu.build_all(n)
            ensure(len(ims) == n, 'build_all gives %d frames' % len(ims))
            self.frames(ims, range(m, m + n), 'frames')
            for i, im in enumerate(ims):
                self.same(im, i / n, m + i)
        else:
            raise RuntimeError(op)
        self.calls(s['c'])

    def look(self, s):
        shown = 0
        for i, (x, want) in enumerate(zip(self.sas, s['f'])):
            if s['op'] == 'fail' and s['a'][0] == i + 1 or getattr(x, 'failed', 0):
                x.failed = len(x.images)
                ensure(len(want) <= len(x.images) <= len(want) + 1, 'animation %d has %d frames' % (i + 1, len(x.images)))
                self.frames(x.images[:len(want)], want, 'frames of animation %d' % (i + 1))
            else:
                self.frames(x.images, want, 'frames of animation %d' % (i + 1))
            shown += len(want)
        self.frames(self.bu.images, s['im'], 'images of the builder')
        ensure(self.bu.matrix == self.matrix0 or near_xy(self.bu.matrix.transform(3, 4), self.matrix0.transform(3, 4), 10) and near_xy(self.bu.matrix.transform(-9, 1), self.matrix0.transform(-9, 1), 10),
               'the matrix of the builder is now', self.bu.matrix)
        ensure(self.bu.base.tobytes() == self.base.tobytes(), 'the base image has changed')


def play(beh, variant):
    return World(variant).run(beh)


def c21(ctx):
    V = [dict(), dict(box=1, size=(30, 7), draft=True), dict(box=2, noholder=True, show=True), dict(box=3, size=(13, 29))]
    kw = dict(invariants=('Ends', 'Once'), properties=('Grow',), view='View', action_constraint='EmitStep')
    for name, c in (('simple animations', dict(MC1, Depth=ctx.scale(5, 6))), ('builders', dict(MC2, Depth=ctx.scale(4, 5)))):
        b = ctx.mc('FramesSys', cfg(constants=c, **kw), name='FramesSys: ' + name, workers=4, timeout=850, heap='6g')
        ctx.count_ops(b)
        ctx.replay(name, b, play, V, each=False)
    b = ctx.sim('FramesSys', cfg(constants=SIM, invariants=('Ends', 'Once', 'EmitFull')), ctx.scale(1000, 10000), SIM['Depth'] + 1, procs=6, heap='2g')
    ctx.count_ops(b)
    ctx.replay('random runs', b, play, V, each=False)
    ctx.need_ops('new', 'animate', 'fail', 'begin', 'end', 'hold', 'one', 'all')
