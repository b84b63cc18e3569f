"""C06: every display receives every pixel exactly once, in its format."""
import math
import numpy as np
import vlib, render, scenes
from scenes import fl

FMT = {1: None, 6: (0, 255), 7: (-128, 127), 4: (0, 65535), 5: (-32768, 32767), 2: (0, 4294967295), 3: (-2147483648, 2147483647)}
MODES = [('rgb', 'rgb'), ('rgba', 'argb'), ('rgbaz', 'argbz'), ('a', 'a'), ('z', 'z'), ('rgbz', 'rgbz'), ('az', 'az'), ('varying color Oi', 'rgb'), ('N', 'rgb'), ('P', 'rgb'), ('s', 'r')]
QUANT = [(255, 0, 255), (255, 0, 255), (65535, 0, 65535), (1, 0, 255), (100, 10, 90), (127, -128, 127), (1000, -32768, 32767), (255, -1, 255), (2000000, 0, 16777216),
         (100000, -2000000, 2000000), (200, 0, 100), (0, 0, 0)]


def pick(one, mn, mx):
    if one == 0:
        return 1
    if mn >= 0:
        return 6 if mx <= 255 else 4 if mx <= 65535 else 2
    return 7 if mn >= -128 and mx <= 127 else 5 if mn >= -32768 and mx <= 32767 else 3


class Case:
    def __init__(self, r):
        g = scenes.SceneGen(r)
        self.W, self.H = r.choice([(1, 1), (7, 5), (16, 16), (17, 33), (40, 24), (64, 3), (33, 20), (r.randint(1, 70), r.randint(1, 50))])
        self.bucket = (r.choice([1, 3, 5, 8, 16, 16, 32, 100]), r.choice([2, 4, 7, 16, 16, 64]))
        if self.W * self.H / (self.bucket[0] * self.bucket[1]) > 150:
            self.bucket = (16, 16)
        self.crop = None
        if r.random() < .4:
            def frac(n):
                a, b = sorted(r.choices(range(0, n + 1), k=2))
                return [0 if k == 0 else 1 if k == n else (k - .5) / n for k in (a, b)]
            self.crop = tuple(frac(self.W) + frac(self.H))
            self.crop = (self.crop[0], max(self.crop[1], self.crop[0]), self.crop[2], max(self.crop[3], self.crop[2]))
        self.samples = r.choice([(1, 1), (2, 2), (3, 2)])
        self.filt = r.choice([('box', 1, 1), ('gaussian', 2, 2), ('box', 3, 3), ('catmull-rom', 4, 4), ('sinc', 2, 3)])
        self.nblocks = 1 if r.random() < .7 else r.randint(2, 3)
        self.frames = r.random() < .5
        gq = r.choice(QUANT) if r.random() < .5 else None
        self.gq = gq
        self.gdith = r.choice([0, 0, .5]) if gq else 0
        self.disp = [dict(name='ref', mode='rgbaz', chan='argbz', q=(0, 0, 0, 0), dith=0., rec='', expl=True),
                     dict(name='aovN', mode='N', chan='rgb', q=(0, 0, 0, 0), dith=0., rec='', expl=True),
                     dict(name='aovP', mode='P', chan='rgb', q=(0, 0, 0, 0), dith=0., rec='', expl=True),
                     dict(name='aovs', mode='s', chan='r', q=(0, 0, 0, 0), dith=0., rec='', expl=True),
                     dict(name='aovo', mode='varying color Oi', chan='rgb', q=(0, 0, 0, 0), dith=0., rec='', expl=True)]
        for k in range(r.randint(1, 4)):
            m, ch = r.choice(MODES)
            d = dict(name='d%d' % k, mode=m, chan=ch, dith=0., expl=r.random() < .7, user={})
            rec = []
            if r.random() < .4:
                rec.append('scan')
            if r.random() < .3:
                rec.append('rev')
            if r.random() < .1:
                rec.append('fail')
            if d['expl']:
                one, mn, mx = r.choice(QUANT)
                zero = r.choice([0, 0, 0, 10, 40]) if one else 0
                d['q'] = (zero, one, mn, mx)
                d['dith'] = r.choice([0, 0, 0, .5]) if one else 0.
            else:
                std = m in ('rgb', 'rgba', 'a')
                zz = 'z' in m
                if gq and not zz and std:
                    d['q'], d['dith'] = (0,) + gq, self.gdith
                else:
                    d['q'] = (0, 0, 0, 0)
            for u in range(r.choice([0, 0, 1, 2])):
                t = r.choice(['float', 'int', 'string', 'float[3]', 'string[2]', 'integer[2]'])
                n = int(t[-2]) if t.endswith(']') else 1
                v = [r.choice(['a b', '', 'xyz', 'q' * 40]) for _ in range(n)] if 'str' in t else [r.randint(-9, 99) for _ in range(n)]
                d['user']['u%d' % u] = (t, v)
            d['rec'] = ' '.join(rec)
            self.disp.append(d)
        self.world = g.world()

    def rib(self):
        o = ['Format %d %d 1' % (self.W, self.H), 'Option "limits" "bucketsize" [%d %d]' % self.bucket]
        if self.crop:
            o.append('CropWindow %s' % ' '.join(fl(x) for x in self.crop))
        o.append('PixelSamples %d %d' % self.samples)
        o.append('PixelFilter "%s" %s %s' % self.filt)
        if self.gq:
            o.append('Quantize "rgba" %d %d %d %s' % (self.gq + (self.gdith,)))
        else:
            o.append('Quantize "rgba" 0 0 0 0')
        o.append('Projection "perspective" "fov" [45]')
        D = []
        for i, d in enumerate(self.disp):
            s = 'Display "%s%s.log" "rec" "%s" "string rec" ["%s"]' % ('+' if i else '', d['name'], d['mode'], d['rec'])
            if d['expl']:
                s += ' "float[4] quantize" [%s] "float dither" [%s]' % (' '.join(fl(x) for x in d['q']), fl(d['dith']))
            for k, (t, v) in d.get('user', {}).items():
                s += ' "uniform %s %s" [%s]' % (t, k, ' '.join('"%s"' % x if isinstance(x, str) else str(x) for x in v))
            D.append(s)
        if not self.frames:
            o += D
        for f in range(self.nblocks):
            if self.frames:
                o += ['FrameBegin %d' % (f + 1)] + D
            o += ['WorldBegin'] + self.world + ['WorldEnd']
            if self.frames:
                o.append('FrameEnd')
        return '\n'.join(o) + '\n'


def check_case(chk, c, r, L, payload):
    W, H = c.W, c.H
    if c.crop:
        cx0, cx1, cy0, cy1 = [min(max(math.ceil(np.float32(n) * np.float32(f)), 0), n) for n, f in zip((W, W, H, H), c.crop)]
    else:
        cx0, cx1, cy0, cy1 = 0, W, 0, H
    empty = cx1 <= cx0 or cy1 <= cy0

    def bad(key, msg):
        chk.violation(key, msg, payload)
    for f in range(c.nblocks):
        ref = {}
        for d in c.disp:
            ds = L.get(d['name'])
            if isinstance(ds, Exception):
                bad('protocol', 'display %s: %s' % (d['name'], ds))
                return
            if not ds or len(ds) != c.nblocks:
                bad('sessions', 'display %s: %d sessions for %d frames' % (d['name'], len(ds or []), c.nblocks))
                return
            x = ds[f]
            if 'fail' in d['rec'].split():
                if x.data:
                    bad('refused-data', 'display %s refused to open and was sent data' % d['name'])
                continue
            if x.closed is None:
                bad('not-closed', 'display %s was not closed' % d['name'])
                return
            if (x.w, x.h) != (cx1 - cx0, cy1 - cy0) and not empty:
                bad('size', 'display %s opened with %dx%d, crop window %dx%d' % (d['name'], x.w, x.h, cx1 - cx0, cy1 - cy0))
            if not empty and x.params.get('origin', (0, 0))[1] != [cx0, cy0] or x.params.get('OriginalSize', (0, 0))[1] != [W, H]:
                bad('origin', 'display %s: origin %s OriginalSize %s' % (d['name'], x.params.get('origin'), x.params.get('OriginalSize')))
            want = pick(*d['q'][1:])
            if [n for n, _ in x.offer] != list(d['chan']) or any(t != want for _, t in x.offer):
                bad('offer', 'display %s mode %s quantize %s offered %s' % (d['name'], d['mode'], d['q'], x.offer))
                return
            for k, (t, v) in d.get('user', {}).items():
                g = x.params.get(k)
                e = [s.encode() if isinstance(s, str) else s for s in v]
                if not g or g[1] != e or g[0] != t[0]:
                    bad('userparam', 'display %s parameter %s: sent %s, received %s' % (d['name'], k, v, g))
            if empty:
                continue
            scan = 'scan' in d['rec'].split()
            ch, cnt = x.assemble(W, H)
            if scan:
                rows = [(a, b, y0, y1) for a, b, y0, y1, es, _ in x.data]
                y = [q[2] for q in rows]
                if any(q[3] != q[2] + 1 for q in rows) or y != sorted(set(y)):
                    bad('scanline-order', 'display %s asked for scanlines, received %s' % (d['name'], rows[:6]))
                    continue
                if len(set((q[0], q[1]) for q in rows)) > 1:
                    bad('scanline-width', 'display %s: scanlines of differing extent %s' % (d['name'], sorted(set((q[0], q[1]) for q in rows))))
                    continue
            if x.stray:
                bad('stray', 'display %s received pixels outside of the raster' % d['name'])
            w = cnt[cy0:cy1, cx0:cx1]
            if (w != 1).any():
                bad('exactly-once', 'display %s (%s): pixels delivered %s times (crop window %s)' %
                    (d['name'], d['rec'], sorted(set(w.ravel().tolist())), (cx0, cx1, cy0, cy1)))
                continue
            if (cnt > 1).any():
                bad('exactly-once', 'display %s: pixels outside the crop window delivered repeatedly' % d['name'])
            chk.count('pixels', int(w.size))
            if d['name'] == 'ref':
                ref.update({k: v for k, v in ch.items()})
                ref['Ci'] = {'r': ch['r'], 'g': ch['g'], 'b': ch['b']}
                continue
            if d['name'].startswith('aov'):
                ref[d['mode']] = ch
                continue
            src = ref.get(d['mode']) if d['mode'] in ('N', 'P', 's', 'varying color Oi', 'Ci') else ref
            if src is None:
                continue
            zero, one, mn, mx = d['q']
            sl = (slice(cy0, cy1), slice(cx0, cx1))
            for n, t in x.fmt:
                v = src[n][sl].astype('f8')
                g = ch[n][sl]
                if one == 0:
                    ok = (g == v) | (np.isnan(v) & np.isnan(g))
                else:
                    e = zero + v * (one - zero)
                    lo = np.clip(np.floor(e + .5), mn, mx)
                    hi = np.clip(np.floor(e + d['dith'] + .5), mn, mx)
                    lo, hi = np.trunc(lo), np.trunc(hi)
                    lim = FMT[t]
                    lo, hi = np.clip(lo, *lim), np.clip(hi, *lim)
                    ok = ((g >= lo) & (g <= hi)) | np.isnan(v)
                if not ok.all():
                    i = np.argwhere(~ok)[0]
                    big = abs(v[tuple(i)]) > 1e12
                    bad('value' + (':huge' if big else ''), 'display %s mode %s channel %s quantize %s dither %s: value %r delivered as %r' %
                        (d['name'], d['mode'], n, d['q'], d['dith'], v[tuple(i)], g[tuple(i)]))
                    break
                chk.count('values', int(v.size))
            chk.count('type%d' % x.fmt[0][1])
            chk.count('scan' if scan else 'bucket')


def main():
    chk = vlib.Check('C06', rule='A case is a random scene rendered to six to nine recording displays at once with random modes, quantisation, channel reordering, '
                     'scanline order, crop window, bucket size, filter and frames; distinct by scene text, non-trivial when at least two buckets were delivered.')
    vlib.build(['verif_render'])
    env = render.Env(chk, shaders={'vconst': scenes.VCONST})
    cases = [Case(chk.rng) for _ in range(chk.n(300, 6000))]

    def go(c):
        rib = c.rib()
        r, L, d = env.render(rib)
        return c, rib, r, L
    for i in range(0, len(cases), 400):
        for c, rib, r, L in vlib.pmap(go, cases[i:i + 400]):
            if not chk.sanitize(r, 'render', rib):
                continue
            check_case(chk, c, r, L, rib)
            nb = len(L['ref'][0].data) if isinstance(L.get('ref'), list) and L['ref'] else 0
            chk.eval(rib.encode() if nb > 1 else None)
            chk.count('deliveries', nb)
    chk.sample({'scene': cases[0].rib()[:900]})
    env.close()
    chk.assumptions = ['quantisation is checked against the float values delivered to a display in the same render']
    return chk.finish()
