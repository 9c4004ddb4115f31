"""C27: CanvasSys.tla against DrawingContext (x7.geom.drawing) and the image side of Builder (x7.geom.anim)"""
import contextlib
import io
import os
import tempfile
import random

from .core import ensure, near, near_xy, Mismatch
from .tlc import cfg


# 0 is transparent; black, blue, red, green and two more
COLOURS = [(0, 0, 0, 0), (0, 0, 0, 255), (0, 0, 255, 255), (255, 0, 0, 255), (0, 128, 0, 255), (200, 180, 60, 255), (90, 20, 120, 255)]
NAMES = [None, 'black', 'blue', 'red', 'green', '#c8b43c', (90, 20, 120)]
MAPS = ['<<1, 0, 0, 0, 1, 0>>', '<<1, 0, 0, 0, -1, 9>>', '<<2, 0, 1, 0, -2, 11>>', '<<0, 1, 2, -1, 0, 8>>', '<<-1, 0, 12, 0, 1, -2>>', '<<1, 0, 3, 0, 3, -4>>',
        '<<1, 0, 12, 0, -1, 12>>', '<<0, -2, 9, -2, 0, 10>>']
SPANS = [-11, -6, -3, -1, 0, 1, 2, 4, 5, 7, 8, 13]
_r = random.Random(27)
BOXES = '{%s}' % ', '.join('<<%d, %d, %d, %d>>' % tuple(_r.choice(SPANS) for _ in range(4)) for _ in range(160))
ALL = '{"context", "polygon", "line", "grid", "shadow", "map", "where", "image", "box", "scaled", "palette", "save"}'
SIM = dict(Sizes='{<<9, 7>>, <<24, 22>>, <<12, 12>>, <<6, 11>>, <<10, 10>>}', Colours='1..6', Black='1', Blue='2', Red='3', Green='4', Maps='{%s}' % ', '.join(MAPS), Boxes=BOXES,
           Factors='1..3', MaxCx=3, MaxIm=6, Lim=60, Depth=30, Sample='TRUE', Ops=ALL)
MC1 = dict(SIM, Sizes='{<<4, 3>>}', Colours='{1, 2}', Maps='{<<1, 0, 0, 0, -1, 2>>}', Boxes='{<<0, 0, 2, 1>>, <<3, 2, 1, 0>>}', Factors='{1, 2}', MaxCx=1, MaxIm=2, Depth=4, Sample='FALSE')
OPS = {'paint': '{"context", "polygon", "line"}', 'images': '{"context", "polygon", "image", "box"}', 'maps': '{"context", "map", "where", "line"}',
       'after': '{"context", "line", "image", "scaled", "palette", "save"}'}


class World:
    def __init__(self, variant):
        from PIL import Image
        from x7.geom import anim, drawing, geom, transform, imagehelp
        self.i, self.a, self.d, self.g, self.t, self.h = Image, anim, drawing, geom, transform, imagehelp
        self.v = variant
        self.cx, self.cx_px, self.im, self.im_bytes, self.bgs = [], [], [], [], []

    def colour(self, c):
        return (NAMES if self.v.get('names') else COLOURS)[c] if c else None

    def matrix(self, m):
        a, b, tx, c, d, ty = m
        return self.t.Transform((a, b, tx, c, d, ty))

    def put(self, i):
        im = self.i.new('RGBA', (i['w'], i['h']), (9, 9, 9, 9))
        im.putdata([COLOURS[c] for c in i['px']])
        return im

    def same(self, what, got, want):
        ensure(got.mode == 'RGBA' and got.size == (want['w'], want['h']), what, got.mode, got.size, 'instead of', (want['w'], want['h']))
        if not want['px']:
            return
        raw = got.tobytes()
        px = [tuple(raw[k:k + 4]) for k in range(0, len(raw), 4)]
        for k, (p, c) in enumerate(zip(px, want['px'])):
            if c >= 0:
                ensure(p == COLOURS[c] or (c == 0 and p[3] == 0), what, 'pixel', (k % want['w'], k // want['w']), 'is', p, 'instead of', COLOURS[c])

    def add(self, im, want):
        self.same('the image', im, want)
        self.im.append(im)
        self.im_bytes.append(im.tobytes())

    def builder(self, images=None):
        b = self.a.Builder(None, None, None)
        if images is not None:
            b.images = images
        return b

    def step(self, s):
        op, a, r = s['op'], s['a'], s['r']
        cx = self.cx
        g = self.g
        if op == 'context':
            (w, h), c, m, crop, k = a
            if k:
                base = self.im[k - 1]
            elif c and len(cx) == 1:
                base = self.i.new('RGB', (w, h), COLOURS[c][:3])
            else:
                base = self.i.new('RGBA', (w, h), COLOURS[c])
            mx = self.matrix(m)
            new = self.d.DrawingContext(base, mx, **({'crop': tuple(crop)} if crop else {}))
            ensure(new.matrix is mx, 'the context does not work with the matrix given')
            cx.append(new)
            self.bgs.append((base, base.tobytes()))
            self.cx_px.append(None)
        elif op == 'polygon':
            i, b, f, o, form = a
            x1, y1, x2, y2 = b
            pts = [(x1, y1), (x2, y1), (x2, y2), (x1, y2)]
            keep = [self.g.Point(*p) for p in pts]
            if form == 'points':
                pts = list(keep)
            elif form == 'mixed':
                pts = [keep[0], pts[1], pts[2], keep[3]]
            before = list(pts)
            if form == 'default':
                cx[i - 1].polygon(pts)
            else:
                cx[i - 1].polygon(pts, fill=self.colour(f), outline=self.colour(o))
            ensure(pts == before and [tuple(p.xy()) for p in keep] == [(x1, y1), (x2, y1), (x2, y2), (x1, y2)], 'polygon() changed its points')
        elif op == 'line':
            i, e, c, default = a
            if default:
                cx[i - 1].line(*e)
            else:
                cx[i - 1].line(*e, self.colour(c))
        elif op == 'grid':
            cx[a[0] - 1].grid()
        elif op == 'shadow':
            i, b = a
            c = cx[i - 1]

            class Thing:
                def draw(self, dc):
                    ensure(dc is c, 'another context')
                    x1, y1, x2, y2 = b
                    dc.polygon([(x1, y1), (x2, y1), (x2, y2), (x1, y2)], fill=dc.shadow_color, outline=None)
            c.shadow_draw(Thing())
        elif op == 'compose':
            cx[a[0] - 1].matrix.compose(self.matrix(a[1]))
        elif op == 'set_matrix':
            m = self.matrix(a[1]) if a[1] else None
            cx[a[0] - 1].set_matrix(m)
            if m:
                m.translate(3, 4)       # the context does not depend on it
        elif op == 'where':
            i, b = a
            c = cx[i - 1]
            pt = c.scale_pt(b[0], b[1])
            ensure(near_xy(pt, r['pt'], 100), 'scale_pt gives', pt, 'instead of', r['pt'])
            back = c.unscale_pt(*pt)
            ensure(near_xy(back, b[:2], 100), 'unscale_pt gives', back, 'instead of', b[:2])
            ensure(tuple(c.crop_to_pixels(tuple(b))) == tuple(r['box']), 'crop_to_pixels gives', c.crop_to_pixels(tuple(b)), 'instead of', r['box'])
            half = (b[0] + 0.5 * (1 if b[0] >= 0 else -1), b[1], b[2], b[3])
            ensure(all(isinstance(v, int) for v in c.crop_to_pixels(half)), 'crop_to_pixels gives', c.crop_to_pixels(half))
        elif op == 'whole':
            self.add(cx[a[0] - 1].image(crop=False), r)
        elif op == 'image':
            self.add(cx[a[0] - 1].image(), r)
        elif op == 'crop':
            self.add(cx[a[0] - 1].image(crop=tuple(a[1])), r)
        elif op == 'max_bbox':
            ims = [self.im[k - 1] for k in a[0]]
            got = self.builder().max_bbox(ims) if len(ims) % 2 else self.builder(ims).max_bbox()
            ensure((tuple(got) if got else ()) == tuple(r), 'max_bbox gives', got, 'instead of', r)
        elif op == 'scaled':
            s_, f, b = a
            ims = [self.im[k - 1] for k in s_]
            kw = dict(bbox=tuple(b)) if b else {}
            got = self.builder().scaled(f, images=ims, **kw) if len(ims) % 2 else self.builder(ims).scaled(f, **kw)
            ensure(len(got) == len(r), len(got), 'images instead of', len(r))
            for g1, w in zip(got, r):
                self.same('scaled: the image', g1, w)
                ensure(set(g1.getchannel('A').tobytes()) <= {0, 255}, 'scaled: alpha has', set(g1.getchannel('A').tobytes()))
        elif op == 'palette':
            self.palette(a, r)
        elif op == 'save':
            s_, crop = a
            ims = [self.im[k - 1] for k in s_]
            b = self.builder(ims)
            with tempfile.TemporaryDirectory() as tmp:
                out = tmp + '/out.gif'
                if len(ims) % 2:
                    b.save_animation(out, autocrop=crop)
                else:
                    b.save_animation(out, list(ims), autocrop=crop)
                ensure(os.listdir(tmp) == ['out.gif'], 'save_animation() wrote', os.listdir(tmp))
                self.saved(out, b, ims, crop)
            ensure(b.images is ims and len(ims) == len(s_), 'save_animation() changed the images')
        if isinstance(r, dict) and 'px' in r and op in ('polygon', 'line', 'grid', 'shadow', 'compose', 'set_matrix'):
            self.cx_px[a[0] - 1] = r

    def saved(self, out, b, ims, crop):
        """The file shows each of the images, up to 16 beyond what is visible in any, at half their size, for its part of the time"""
        if crop:
            w, h = ims[0].size
            box = [im.getbbox() for im in ims if im.getbbox()] or [(0, 0, w, h)]
            xl, yl, xh, yh = (f(x) for f, x in zip((min, min, max, max), zip(*box)))
            ims = [im.crop((max(0, xl - 16), max(0, yl - 16), min(w, xh + 16), min(h, yh + 16))) for im in ims]
        want = [self.a.composed(im, 'black').convert('RGB') for im in b.scaled(2, images=ims)]
        if len({c for im in want for c in im.getdata()}) > 256:
            return
        part = int(1000 * b.duration / len(want))
        shown, t = [], 0
        with self.i.open(out) as gif:
            ensure(gif.info.get('loop') == 0, 'the file does not loop for ever:', gif.info)
            for k in range(gif.n_frames):
                gif.seek(k)
                t += gif.info['duration']
                shown.append((t, gif.convert('RGBA')))
        ensure(abs(t - part * len(want)) <= 10 * len(want), 'the file lasts', t, 'instead of', part * len(want))
        for k, im in enumerate(want):
            got = next(g for t, g in shown if t > (k + 0.5) * part)
            ensure(got.size == im.size, 'saved image %d is' % (k + 1), got.size, 'instead of', im.size)
            corner = im.getpixel((0, 0))
            for p, c in zip(got.getdata(), im.getdata()):
                # (Pillow takes a colour of the palette that is close for one that is there, and leaves black out where nothing was)
                far = max(abs(x - y) for x, y in zip(c, corner))
                seen = p[3] == 255 and max(abs(x - y) for x, y in zip(p, c)) <= 12
                ensure(p[3] == 0 if far == 0 else seen if min(far, max(c)) > 12 else seen or p[3] == 0, 'saved image %d has' % (k + 1), p, 'for', c, 'the corner being', corner)

    def palette(self, a, r):
        ims = [self.a.composed(self.im[k - 1], 'black').convert('RGB') for k in a[0]]
        raw = [im.tobytes() for im in ims]
        count = {}
        for c, n in r:
            c = COLOURS[c][:3]
            count[c] = count.get(c, 0) + n
        more = []
        if a[1]:            # many colours that are there only once
            rest = self.i.new('RGB', (300, 1))
            rest.putdata([(255 - k % 3, 100 + k // 3, 130 + (k * 7) % 100) for k in range(300)])
            more = [rest]
        p = self.builder().make_palette(ims + more)
        ensure(p.mode == 'P', 'the palette image is', p.mode)
        pal = p.getpalette()
        pal = [tuple(pal[k:k + 3]) for k in range(0, len(pal), 3)]
        often = sorted((c for c in count if count[c] > 1 or not more), key=lambda c: -count[c])
        ensure(set(pal[:len(often)]) == set(often), 'the palette begins with', pal[:len(often)], 'the images have', often)
        ensure([count[c] for c in pal[:len(often)]] == [count[c] for c in often], 'the palette is not ordered by how often the colours are there:', pal[:len(often)], count)
        if more:
            ensure(len(set(pal)) == 256, 'the palette has', len(set(pal)), 'colours of', 300 + len(often))
        else:
            for im, b in zip(ims, raw):
                q = self.a.rgb_to_transparent(im, palette_image=p)
                ensure(q.mode == 'P' and q.size == im.size, 'converted to', q.mode, q.size)
                ensure(q.convert('RGB').tobytes() == b, 'converting changes the colours')
                ensure(q.info.get('transparency') == q.getpixel((0, 0)), 'transparent is', q.info.get('transparency'), 'instead of the colour of the corner', q.getpixel((0, 0)))
                ensure(im.mode == 'RGB' and im.tobytes() == b and 'transparency' not in im.info, 'converting changes the image given')

    def look(self, op):
        for k, (im, b) in enumerate(zip(self.im, self.im_bytes)):
            ensure(im.tobytes() == b, 'image %d has changed' % (k + 1))
        for k, (im, b) in enumerate(self.bgs):
            ensure(im.tobytes() == b, 'the background given to context %d has changed' % (k + 1))
        for k, (c, want) in enumerate(zip(self.cx, self.cx_px)):
            if want:
                self.same('context %d' % (k + 1), c.image(crop=False), want)

    def run(self, beh):
        for k, s in enumerate(beh):
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    self.step(s)
                self.look(s['op'])
            except Mismatch as e:
                raise Mismatch('step %d %s%s: %s' % (k + 1, s['op'], s['a'], e))
        return len(beh)


def play(beh, variant):
    return World(variant).run(beh)


def c27(ctx):
    V = [dict(), dict(names=True)]
    kw = dict(invariants=('Tight', 'Counts', 'PlainStays'), properties=('Stay',), view='View', action_constraint='EmitStep')
    for name, ops in OPS.items():
        b = ctx.mc('CanvasSys', cfg(constants=dict(MC1, Ops=ops, Depth=dict(paint=3, after=4).get(name, 4)), **kw), name='CanvasSys: ' + name, workers=6, timeout=850, heap='6g')
        ctx.count_ops(b)
        ctx.replay(name, b, play, V, each=False)
    b = ctx.sim('CanvasSys', cfg(spec='Walk', constants=SIM, invariants=('EmitFull',)), ctx.scale(600, 6000), SIM['Depth'] + 1, procs=6, heap='2g')
    ctx.count_ops(b)
    ctx.replay('random canvases', b, play, V, each=False)
    ctx.need_ops('context', 'polygon', 'line', 'grid', 'shadow', 'compose', 'set_matrix', 'where', 'whole', 'image', 'crop', 'max_bbox', 'scaled', 'palette', 'save')
