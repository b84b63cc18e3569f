"""C09: the image does not depend on how the work is divided or on what was rendered before."""
import math
import numpy as np
import vlib, render, rich
from refgeo import fl, fls

CORNER = '''Format 32 32 1
PixelSamples 4 4
PixelFilter "mitchell" 3 3
Hider "hidden" "int jitter" [0]
Projection "perspective" "fov" [40]
Option "limits" "integer[2] bucketsize" [%d %d]
Display "img.log" "rec" "rgbaz" "float[4] quantize" [0 0 0 0]
WorldBegin
AttributeBegin
Color [0.776 0.686 0.49]
Surface "vnoise" "freq" [2.28946845]
ShadingRate 2
Sides 1
Translate -0.248990196 -1.00227343 3.70296261
Rotate 5.96425131 -0.91916007 0.787488306 0.847521877
Scale 1.0195026 0.605891627 1.09226432
SubdivisionMesh "catmull-clark" [3 3 3 3] [0 1 2 0 3 1 0 2 3 1 3 2] ["corner" "hole"] [1 1 1 0] [2 3] [10] "P" [0.778368217 0.907171582 0.966020356 -0.850038292 -0.976983529 0.907333477 -0.881127861 0.929104724 -0.832165027 0.912119766 -0.748772785 -0.78382399]
AttributeEnd
WorldEnd
'''


# shaders of the sessions: a plain colour, a texture, and a light that casts the shadow of a map
SESSION = {'splain': 'surface splain(color v = 1;) { Ci = v * Cs * Os; Oi = Os; }\n',
           'stex': 'surface stex(string m = "t.tex";) { Ci = color texture(m, s, t) * Os; Oi = Os; }\n',
           'slit': 'surface slit() { normal n = normalize(N); color c = 0; illuminance(P, n, 2) { c += Cl; } Ci = (.1 + c) * Cs * Os; Oi = Os; }\n',
           'sshad': 'light sshad(string m = "s.map"; vector d = vector "world" (0, 0, 1);) { solar(d, 0) { Cl = 1 - shadow(m, Ps); } }\n'}
SQUARE = 'Polygon "P" [%s %s %s  %s %s %s  %s %s %s  %s %s %s]'


def square(x0, y0, x1, y1, z):
    return SQUARE % tuple(map(fl, (x0, y0, z, x1, y0, z, x1, y1, z, x0, y1, z))) + ' "st" [0 0 1 0 1 1 0 1]'


# state a frame may leave behind: options and attributes set before its world
LEFT = ['Exposure 2 1.5', 'Exposure .5 2', 'Quantize "rgb" 255 0 255 0', 'Clipping .1 2.6', 'Clipping 3.2 100', 'CropWindow .2 .6 .3 .9', 'DepthOfField 2 .5 3', 'Shutter 0 1', 'ScreenWindow -2 1 -1 3', 'FrameAspectRatio 2',
        'PixelFilter "gaussian" 4 4', 'PixelSamples 1 3', 'Projection "perspective" "fov" [70]', 'Option "limits" "integer gridsize" [9]', 'Option "limits" "integer[2] bucketsize" [7 3]', 'Hider "hidden" "string depthfilter" ["max"]',
        'Option "limits" "color zthreshold" [.1 .1 .1]', 'Imager "background" "color background" [.3 .6 .2]', 'Color [.2 .7 .4]', 'Opacity [.4 .5 .6]', 'Matte 1', 'Sides 1', 'Orientation "inside"', 'ShadingRate 16', 'Surface "splain" "color v" [0 1 0]',
        'Translate .3 -.2 .5', 'Rotate 30 0 0 1', 'Scale -1 1 1', 'Attribute "user" "color v" [1 0 1]', 'Option "user" "float q" [3]', 'Atmosphere "fog" "float distance" [2]', 'RelativeDetail 2', 'ReverseOrientation',
        'Attribute "displacementbound" "float sphere" [2]', 'Attribute "trimcurve" "string sense" ["outside"]', 'Format 11 19 .7', 'GeometricApproximation "flatness" 4', 'TextureCoordinates 1 1 0 1 1 0 0 0',
        'Interior "fog"', 'LightSource "ambientlight" 9 "float intensity" [.7]', 'Basis "catmull-rom" 1 "b-spline" 1']


def chain(r, k, judged):
    """frames that render an image, make a map of it under a name every chain uses, and look at the map"""
    v = [round(r.random(), 2) for _ in range(6)]
    kind = r.choice(['tex', 'tex', 'shadow', 'plain'])
    left = [] if judged else r.sample(LEFT, r.randint(0, 4))
    if 'LightSource "ambientlight" 9 "float intensity" [.7]' in left:
        left = left + ['Illuminate 9 1']
    base = ['Format 16 16 1', 'PixelSamples 2 2', 'Hider "hidden" "int jitter" [0]']
    q = '"float[4] quantize" [0 0 0 0] "float dither" [0]'
    out = []
    n = [10 * k]

    def frame(body):
        n[0] += 1
        out.extend(['FrameBegin %d' % n[0]] + base + body + ['FrameEnd'])
    look = ['Display "look%d.log" "rec" "rgbaz" %s' % (k, q)]
    if kind == 'tex':
        frame(['Display "i%d.tif" "file" "rgb" %s' % (k, q), 'WorldBegin', 'Surface "splain"', 'Color [%s %s %s]' % tuple(v[:3]), square(-2, -2, 2, 2, 3), 'Color [%s %s %s]' % tuple(v[3:]), square(-1, -1, v[0], v[1], 2.5), 'WorldEnd'])
        frame(['MakeTexture "i%d.tif" "t.tex" "clamp" "clamp" "%s" 2 2' % (k, r.choice(['box', 'gaussian']))] + left + look + ['WorldBegin', 'Surface "stex"', square(-1 + v[2] / 2, -1, 1, 1, 3), 'WorldEnd'])
    elif kind == 'shadow':
        frame(['PixelSamples 1 1', 'PixelFilter "box" 1 1', 'Display "z%d.z" "zfile" "z" %s' % (k, q), 'WorldBegin', 'Surface "splain"', square(-2, -2, 2, 2, 5), square(-v[0], -v[1], v[2], v[3], 2), 'WorldEnd'])
        frame(['MakeShadow "z%d.z" "s.map"' % k] + left + look + ['WorldBegin', 'LightSource "sshad" 1', 'Surface "slit"', square(-1, -1, 1, 1, 4.5), 'WorldEnd'])
    else:
        frame(left + look + ['WorldBegin', 'ObjectBegin 1', 'Surface "splain"', square(-v[0] - .1, -v[1] - .1, v[2] + .1, v[3] + .1, 3), 'ObjectEnd', 'CoordinateSystem "here%d"' % k, 'Color [%s %s %s]' % tuple(v[:3]), 'ObjectInstance 1',
                             'LightSource "ambientlight" 1 "float intensity" [%s]' % v[4], 'Surface "slit"', 'Color [1 %s 1]' % v[5], square(-.5, -1, .5, -.2, 2.5), 'WorldEnd'])
    return out, kind, left


def sessions(chk, env, n):
    """every chain of frames gives the image it gives alone, whatever frames came before it"""
    r = chk.rng
    jobs = []
    for i in range(n):
        C = [chain(r, k + 1, False) for k in range(r.randint(1, 3))]
        last = chain(r, len(C) + 1, True)
        jobs.append((len(C) + 1, '\n'.join(last[0]) + '\n', '\n'.join(sum([c[0] for c in C], []) + last[0]) + '\n', last[1], [c[1] for c in C], sum([c[2] for c in C], [])))

    def go(j):
        return env.render(j[1]), env.render(j[2])
    for j, (a, b) in zip(jobs, vlib.pmap(go, jobs)):
        k, alone, after, kind, before, left = j
        if not chk.sanitize(a[0], 'session (alone)', alone) or not chk.sanitize(b[0], 'session', after):
            continue
        I = []
        for x in (a, b):
            D = x[1].get('look%d' % k)
            if not isinstance(D, list) or len(D) != 1:
                chk.violation('no-image:session', 'no image was delivered: %s' % env.messages(x[0])[:3], after)
                break
            I.append(image(D[0], 16, 16)[0])
        if len(I) < 2:
            continue
        if not np.allclose(I[0], I[1], rtol=2e-5, atol=2e-5, equal_nan=True):
            chk.violation('image:session', 'the image of the last frames (%s) is not what they give alone; before them: %s with %s' % (kind, before, left), after)
        chk.count('sessions_' + kind)
        chk.count('state_left_behind', len(left))
        chk.count('same_kind_before', kind in before)
        chk.eval(after.encode() if I[0].any() else None)


class Scene:
    def __init__(self, r):
        self.r = r
        self.W, self.H = r.choice([(32, 32), (40, 24), (27, 35), (48, 16)])
        self.ns = r.choice([(1, 1), (2, 2), (3, 2), (2, 1), (4, 4)])
        self.filt = r.choice([('box', 1, 1), ('box', 2, 2), ('gaussian', 2, 2), ('gaussian', 3, 2), ('triangle', 2, 2), ('sinc', 4, 4), ('mitchell', 3, 3),
                              ('catmull-rom', 4, 4), ('disk', 2, 2), ('bessel', 3, 3)])
        self.motion = r.random() < .3
        self.dof = r.random() < .2
        self.imager = r.random() < .2
        self.fov = r.choice([40, 60, None])
        self.lights, self.objs = rich.world(r, motion=self.motion)
        self.disp = r.choice(['rgba', 'rgb', 'rgbaz'])

    def opts(self, name='img', extra=(), bucket=(16, 16), order=None, grid=None, crop=None, disp2=False):
        o = ['Format %d %d 1' % (self.W, self.H), 'PixelSamples %d %d' % self.ns, 'PixelFilter "%s" %d %d' % self.filt, 'Hider "hidden" "int jitter" [0]']
        if self.motion:
            o.append('Shutter 0 1')
        if self.dof:
            o.append('DepthOfField 2.8 .5 4.5')
        if self.imager:
            o.append('Imager "vimg"')
        o.append('Projection "perspective" "fov" [%d]' % self.fov if self.fov else 'Projection "orthographic"')
        if not self.fov:
            a = self.W / self.H
            o.append('ScreenWindow %s %s -2 2' % (fl(-2 * a), fl(2 * a)))
        if bucket:
            o.append('Option "limits" "integer[2] bucketsize" [%d %d]' % bucket)
        if grid:
            o.append('Option "limits" "integer gridsize" [%d]' % grid)
        if order:
            o.append('Option "render" "string bucketorder" ["%s"]' % order)
        if crop:
            o.append('CropWindow %s %s %s %s' % tuple(map(fl, crop)))
        o.append('Display "%s.log" "rec" "%s" "float[4] quantize" [0 0 0 0]' % (name, self.disp))
        if disp2:
            o.append('Display "+aux%s.log" "rec" "varying normal N" "float[4] quantize" [0 0 0 0]' % name)
        return o + list(extra)

    def world(self, objs=None):
        w = ['WorldBegin'] + self.lights
        for o in (objs if objs is not None else self.objs):
            w += o
        return w + ['WorldEnd']

    def frame(self, n, **k):
        return ['FrameBegin %d' % n] + self.opts(**k) + self.world() + ['FrameEnd']


def variants(r, s, other):
    """list of (name, rib, log name, crop or None, tolerance class)"""
    out = []
    b = r.choice([(16, 16), (8, 8), (5, 7), (32, 4), (64, 64), (13, 40), (3, 3)])
    out.append(('bucketsize', s.opts(bucket=b) + s.world(), 'img', None, 'exact'))
    out.append(('bucketorder', s.opts(order='vertical', bucket=r.choice([(16, 16), (6, 9)])) + s.world(), 'img', None, 'exact'))
    x0, x1 = sorted((r.random(), r.random()))
    y0, y1 = sorted((r.random(), r.random()))
    if r.random() < .2:
        x0, x1 = 0, 1
    crop = (x0, max(x1, x0 + .1), y0, max(y1, y0 + .1))
    crop = tuple(min(1, c) for c in crop)
    out.append(('crop', s.opts(crop=crop, bucket=b) + s.world(), 'img', crop, 'exact'))
    o = list(s.objs)
    r.shuffle(o)
    out.append(('order', s.opts() + s.world(o), 'img', None, 'ties'))
    k = r.random()
    if k < .35:
        out.append(('second-frame', s.frame(1, name='first') + s.frame(2), 'img', None, 'exact'))
    elif k < .8:
        out.append(('after-other', other.frame(1, name='first', bucket=b) + s.frame(2), 'img', None, 'exact'))
    else:
        out.append(('repeat', s.opts() + s.world(), 'img', None, 'exact'))
    if r.random() < .3:
        out.append(('extra-display', s.opts(disp2=True) + s.world(), 'img', None, 'exact'))
    out.append(('gridsize', s.opts(grid=r.choice([4, 16, 64, 600])) + s.world(), 'img', None, 'rough'))
    if r.random() < .3:
        x = list(s.objs)
        w = ['WorldBegin'] + s.lights
        for q in x:
            w += r.choice([['AttributeBegin'] + q + ['AttributeEnd'], ['TransformBegin'] + q + ['TransformEnd'], ['Attribute "identifier" "string name" ["o"]'] + q])
        out.append(('nesting', s.opts() + w + ['WorldEnd'], 'img', None, 'exact'))
    return out


def image(D, W, H):
    ch, cnt = D.assemble(W, H)
    return np.stack([ch[k] for k in sorted(ch)], -1), cnt


def main():
    chk = vlib.Check('C09', rule='A case is one scene (all primitives, shading, lights, transparency, motion, depth of field, CSG) rendered a second time with other bucket sizes, bucket order, '
                     'crop window, grid size, object order, nesting, displays, or after other frames in the same process. Distinct by scene text and variant; non-trivial when the image is not empty.')
    vlib.build(['verif_render'])
    env = render.Env(chk, shaders=dict(rich.SHADERS, **SESSION))
    sessions(chk, env, chk.n(150, 3000))
    r = chk.rng
    n = chk.n(220, 3000)
    scenes = [Scene(r) for _ in range(n)]
    jobs = []
    for i, s in enumerate(scenes):
        jobs.append((i, 'base', '\n'.join(s.opts() + s.world()) + '\n', 'img', None, ''))
        for v in variants(r, s, scenes[r.randrange(n)]):
            jobs.append((i, v[0], '\n'.join(v[1]) + '\n') + tuple(v[2:]))

    # once a defect: a fixed scene whose faces next to a corner are split or diced by need
    for b in ((16, 16), (32, 4), (5, 7), (3, 3)):
        jobs.append((-1, 'corner', CORNER % b, 'img', None, ''))

    def go(j):
        res, L, d = env.render(j[2])
        return res, L
    base = {}
    tot = diff = 0
    for j, (res, L) in zip(jobs, vlib.pmap(go, jobs)):
        i, name, rib, log, crop, tol = j
        s = scenes[max(i, 0)]
        if not chk.sanitize(res, 'render (%s)' % name, rib):
            continue
        if i < 0:
            im, cnt = image(L['img'][0], 32, 32)
            if 'corner' in base and not np.allclose(base['corner'], im, rtol=0, atol=2e-5):
                chk.violation('image:subdivision-corner', 'the image of a subdivision mesh with a corner changes with the bucket size', rib)
            base.setdefault('corner', im)
            continue
        D = L.get(log)
        if not isinstance(D, list) or len(D) != 1:
            chk.violation('no-image:' + name, 'no image was delivered (%s): %s' % (name, D), rib)
            continue
        im, cnt = image(D[0], s.W, s.H)
        if name == 'base':
            base[i] = im
            continue
        if i not in base:
            continue
        b = base[i]
        m = cnt > 0
        if crop:
            # whole buckets are delivered; only the window itself is judged
            w = np.zeros_like(m)
            x0, x1, y0, y1 = [math.ceil(np.float32(q) * n_) for q, n_ in zip(crop, (s.W, s.W, s.H, s.H))]
            w[y0:y1, x0:x1] = True
            if not m[w].all():
                chk.violation('crop-pixels', 'pixels inside the crop window were not delivered', rib)
            m = w
        else:
            m = np.ones_like(m)
        with np.errstate(invalid='ignore', over='ignore'):
            d = np.where((b == im) | (np.isnan(b) & np.isnan(im)), 0, np.abs(b - im) / (1 + np.abs(b)))
        d = np.nan_to_num(d, nan=1.) * m[..., None]
        bad = int((d.max(-1) > 2e-5).sum())
        chk.count('variant_' + name)
        chk.count('pixels_compared', int(m.sum()))
        if tol == 'exact' and bad:
            y, x = np.argwhere(d.max(-1) > 2e-5)[0]
            chk.violation('image:' + name, 'the image changes with %s: %d of %d pixels, e.g. (%d,%d) %s became %s' % (name, bad, m.sum(), x, y, b[y, x], im[y, x]), '#base\n' + '\n'.join(s.opts() + s.world()) + '\n#variant\n' + rib)
        elif tol == 'ties':
            tot += m.sum()
            diff += bad
            if bad > max(4, .02 * m.sum()):
                y, x = np.argwhere(d.max(-1) > 2e-5)[0]
                chk.violation('image:' + name, 'the image changes with the order of objects: %d of %d pixels, e.g. (%d,%d) %s became %s' % (bad, m.sum(), x, y, b[y, x], im[y, x]), '#base\n' + '\n'.join(s.opts() + s.world()) + '\n#variant\n' + rib)
        elif tol == 'rough':
            k = 3 if s.disp != 'rgbaz' else 4
            keys = sorted(L[log][0].assemble(s.W, s.H)[0])
            sel = [q for q, c in enumerate(keys) if c != 'z']
            e = float(np.abs(b[..., sel] - im[..., sel]).mean())
            chk.count('rough_error_max_1e4', 0)
            chk.counters['rough_error_max_1e4'] = max(chk.counters['rough_error_max_1e4'], int(e * 1e4))
            if e > .08:
                chk.violation('image:' + name, 'the image changes with the grid size: mean difference %g' % e, rib)
        chk.eval((rib[:4000] + name).encode() if im.any() else None)
    if diff > .003 * max(tot, 1):
        chk.violation('ties', '%d of %d pixels depend on the order of objects' % (diff, tot))
    chk.count('order_pixels_different', int(diff))
    chk.sample({'scene': jobs[0][2][:900]})
    env.close()
    return chk.finish()
