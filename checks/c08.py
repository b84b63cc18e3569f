"""C08: visible-surface determination, compositing, matte, sides, clipping and depth."""
import numpy as np
import vlib, render, refgeo as G, refprims as R
from refgeo import fl
import c07

SURF = 'surface vflat() { Oi = Os; Ci = Cs * Os; }\n'
BIG = 1e30


def prim(r):
    k = r.random()
    if k < .5:
        p = R.quadric(r)
    elif k < .75:
        p = R.patch(r)
    else:
        p = R.polygon(r)
    p.oriented = isinstance(p, G.Surf) or p.kind == 'polygon'
    if p.kind in ('sphere', 'cone', 'cylinder', 'disk', 'torus', 'paraboloid', 'hyperboloid') and float(p.rib.split()[-1]) < 0:
        # a negative sweep turns the surface around; which side is outside is not defined
        p.oriented = False
    return p


class Case(c07.Case):
    def __init__(self, r):
        self.W, self.H = r.choice([(22, 22), (28, 18)])
        self.fov = r.choice([None, 20, 30, 50])
        self.sw = None
        if self.fov is None:
            a = self.W / self.H
            w = r.choice([1.7, 1.1, .8])
            self.sw = (-w * a, w * a, -w, w)
        self.near, self.far = 0, BIG
        if r.random() < .4:
            self.near = r.uniform(1.5, 3.8) - (0 if self.fov else 1.3)
        if r.random() < .3:
            self.far = r.uniform(3.5, 6) - (0 if self.fov else 1.3)
        self.far = max(self.far, self.near + .4)
        self.cam = G.Camera(self.W, self.H, self.fov, self.sw)
        self.bucket = r.choice([None, (4, 4), (7, 3), (3, 8), (5, 5)])
        self.grid = r.choice([None, None, 24, 64, 900])
        self.sc = G.Scene(self.cam)
        self.filt = r.choice([None, 'min', 'midpoint', 'max', 'average'])
        self.thr = r.choice([None, None, [.3] * 3, [.6] * 3, [1.] * 3, [r.choice([.3, .6, .97]) for _ in range(3)]])
        self.world, self.obj, self.kinds = [], [], set()
        self.crop = None
        nob = r.randint(1, 6)
        for k in range(nob):
            p = prim(r)
            L, m = c07.xforms(r, self.fov, .25)
            if self.fov is None:
                # close to the eye plane, where the direction of view matters most
                L.insert(0, 'Translate 0 0 -1.3')
                m = m @ G.translate(0, 0, -1.3)
            o = dict(col=[round(r.uniform(.1, 1), 3) for _ in range(3)], matte=r.random() < .2, sides=2, flip=False)
            z = r.random()
            if z < .4:
                o['op'] = [1.] * 3
            elif z < .75:
                o['op'] = [round(r.uniform(.05, .95), 3)] * 3
            elif z < .95:
                o['op'] = [r.choice([1., round(r.uniform(.62, .95), 3), round(r.uniform(.05, .25), 3)]) for _ in range(3)]
            else:
                o['op'] = [0.] * 3
            # opacities are interpolated: one just at the threshold may fall either side
            if self.thr is not None:
                o['op'] = [a - .005 if a < 1 and min(abs(a - t) for t in self.thr) < .003 else a for a in o['op']]
            A = ['Color [%s]' % G.fls(o['col']), 'Opacity [%s]' % G.fls(o['op'])]
            if o['matte']:
                A.append('Matte 1')
            A += L
            det = np.linalg.det(m[:3, :3])
            o['det'] = 1 if det > 0 else -1
            if p.oriented and r.random() < .45:
                o['sides'] = 1
                A.append('Sides 1')
                z = r.random()
                if z < .2:
                    A.append('ReverseOrientation')
                    o['flip'] = True
                elif z < .35:
                    A.append('Orientation "inside"')
                    o['flip'] = True
                elif z < .45:
                    A.append('Orientation "outside"')
                elif z < .6:
                    A.append('Orientation "lh"')
                    o['det'] = 1
                elif z < .75:
                    A.append('Orientation "rh"')
                    o['det'] = -1
                elif z < .8:
                    A += ['Orientation "inside"', 'ReverseOrientation']
            self.kinds.add(p.kind)
            self.obj.append(o)
            self.sc.add(p, m, k)
            self.world += ['AttributeBegin'] + A + [p.rib, 'AttributeEnd']

    def rib(self):
        o = ['Format %d %d 1' % (self.W, self.H), 'PixelSamples 1 1', 'PixelFilter "box" 1 1', 'ShadingRate .25']
        o.append('Hider "hidden" "int jitter" [0]' + (' "string depthfilter" ["%s"]' % self.filt if self.filt else ''))
        if self.thr is not None:
            o.append('Option "limits" "color zthreshold" [%s %s %s]' % tuple(map(fl, self.thr)))
        if self.near or self.far < BIG:
            o.append('Clipping %s %s' % (fl(self.near or 1e-3), fl(self.far)))
        if self.bucket:
            o.append('Option "limits" "int[2] bucketsize" [%d %d]' % self.bucket)
        if self.grid:
            o.append('Option "limits" "int gridsize" [%d]' % self.grid)
        if self.sw:
            o.append('ScreenWindow %s %s %s %s' % tuple(map(fl, self.sw)))
        o.append('Projection "perspective" "fov" [%d]' % self.fov if self.fov else 'Projection "orthographic"')
        o.append('Display "img.log" "rec" "rgbaz" "float[4] quantize" [0 0 0 0]')
        o.append('Display "+oi.log" "rec" "varying color Oi" "float[4] quantize" [0 0 0 0]')
        o += ['WorldBegin', 'Surface "vflat"'] + self.world + ['WorldEnd']
        return '\n'.join(o) + '\n'

    def layers(self, hits, tol):
        """visible layers front to back, or None when something is too close to call"""
        out = []
        for o, z, f, uv, fr in hits:
            q = self.obj[o]
            if max(q['op']) == 0:
                continue
            if q['sides'] == 1:
                n = fr * q['det'] * (-1 if q['flip'] else 1)
                if n >= 0:
                    continue
            if self.near and z < self.near or z > self.far:
                continue
            out.append((o, z))
        return out

    def expect(self):
        px, shp = G.probe(self.sc)
        out = []
        thr = [1.] * 3 if self.thr is None else self.thr
        for offs in px:
            e = None
            if not any(h is None for h in offs):
                seq = {tuple((o, fr > 0) for o, z, f, uv, fr in h) for h in offs}
                if len(seq) == 1:
                    e = self.one(offs, thr)
            out.append(e)
        return out

    def one(self, offs, thr):
        c = offs[0]
        n = len(c)
        sp = [max(h[i][1] for h in offs) - min(h[i][1] for h in offs) for i in range(n)]
        tol = [.02 + .8 * s for s in sp]
        if any(s > .6 for s in sp):
            return None
        for i in range(n - 1):
            if c[i + 1][1] - c[i][1] < tol[i] + tol[i + 1]:
                return None
        for i in range(n):
            if self.near and abs(c[i][1] - self.near) < tol[i] or abs(c[i][1] - self.far) < tol[i]:
                return None
            # facing must not be grazing: the culling looks at micropolygon normals
            if self.obj[c[i][0]]['sides'] == 1 and min(abs(h[i][4]) for h in offs) < .08:
                return None
        L = self.layers(c, tol)
        C, O = np.zeros(3), np.zeros(3)
        for o, z in reversed(L):
            q = self.obj[o]
            op = np.array(q['op'])
            C, O = C * (1 - op), O * (1 - op)
            if not q['matte']:
                C += np.array(q['col']) * op
                O += op
        zs = [z for o, z in L if all(a >= b for a, b in zip(self.obj[o]['op'], thr))]
        if self.filt == 'midpoint':
            z = (zs[0] + zs[1]) / 2 if len(zs) > 1 else BIG
        elif not zs:
            z = BIG
        elif self.filt == 'max':
            z = zs[-1]
        elif self.filt == 'average':
            z = sum(zs) / len(zs)
        else:
            z = zs[0]
        return C, O, z, max(tol, default=0), bool(L), len(L)


def main():
    chk = vlib.Check('C08', rule='A case is a scene of one to five overlapping objects with random opacity, matte, sides, orientation, clipping range, depth filter and threshold; '
                     'a pixel is decided when the same surfaces, in the same order and facing, lie at and around its sample point, clear of each other and of the clipping planes. '
                     'Distinct by scene text; non-trivial when a decided pixel has a surface.')
    vlib.build(['verif_render'])
    env = render.Env(chk, shaders={'vflat': SURF})
    total = chk.n(800, 10000)
    first = None

    def go(c):
        rib = c.rib()
        r, L, d = env.render(rib)
        return c, rib, r, L, c.expect()
    stray = tot = 0
    for i in range(0, total, 500):
        for c, rib, r, L, exp in vlib.pmap(go, [Case(chk.rng) for _ in range(min(500, total - i))]):
            first = first or c
            if not chk.sanitize(r, 'render', rib):
                continue
            if not all(isinstance(L.get(k), list) and len(L[k]) == 1 for k in ('img', 'oi')):
                chk.violation('no-image', 'no image was delivered: %s' % L, rib)
                continue
            ch, _ = L['img'][0].assemble(c.W, c.H)
            oi, _ = L['oi'][0].assemble(c.W, c.H)
            oi = list(oi.values())
            bad, badz, nd = [], [], 0
            for j, e in enumerate(exp):
                if e is None:
                    continue
                nd += 1
                y, x = divmod(j, c.W)
                C, O, z, tol, hit, nl = e
                if hit:
                    chk.count('pixels_%d_layers' % min(nl, 4))
                g = np.array([ch[k][y, x] for k in 'rgb'])
                o = np.array([k[y, x] for k in oi])
                a = ch['a'][y, x]
                if np.abs(g - C).max() > 3e-3 or np.abs(o - O).max() > 3e-3 or abs(a - O.mean()) > 3e-3:
                    bad.append('pixel (%d,%d) is Ci %s Oi %s a %g, expected %s %s' % (x, y, np.round(g, 4), np.round(o, 4), a, np.round(C, 4), np.round(O, 4)))
                gz = ch['z'][y, x]
                if not (gz >= BIG if z >= BIG else abs(gz - z) <= tol):
                    badz.append('pixel (%d,%d) has depth %g, expected %g within %g' % (x, y, gz, z, tol))
            chk.count('pixels_decided', nd)
            few = max(2, .01 * nd)
            for b, k in ((bad, 'colour'), (badz, 'depth')):
                if len(b) > few:
                    chk.violation(k, 'scene of %s, depthfilter %s: %d of %d decided pixels have wrong %s, e.g. %s' % (sorted(c.kinds), c.filt, len(b), nd, k, b[0]), rib)
            stray += len(bad) + len(badz)
            tot += nd
            for o in c.obj:
                for k in ('matte', 'flip'):
                    if o[k]:
                        chk.count('objects_' + k)
                if o['sides'] == 1:
                    chk.count('objects_onesided')
            chk.count('filter_%s' % c.filt)
            chk.eval(rib.encode() if any(e and e[4] for e in exp) else None)
    chk.count('pixels_stray', stray)
    if stray > .001 * tot:
        chk.violation('stray', '%d of %d decided pixels differ over all scenes' % (stray, tot))
    chk.sample({'scene': first.rib()[:900]})
    env.close()
    return chk.finish()
