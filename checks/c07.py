"""C07: every primitive is drawn exactly where its definition puts it."""
import numpy as np
import vlib, render, refgeo as G, refprims as R
from refgeo import fl

SURF = 'surface vflat() { Oi = 1; Ci = Cs; }\n'


def xforms(r, cam_fov, spread=1):
    """-> (rib lines, matrix object to camera)"""
    z = r.uniform(2.8, 6)
    T = [('Translate %s %s %s', (r.uniform(-spread, spread), r.uniform(-spread, spread), z), G.translate),
         ('Rotate %s %s %s %s', (r.uniform(0, 360), r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(.1, 1)), G.rotate)]
    if r.random() < .4:
        s = [r.uniform(.5, 1.3) * r.choice([1, 1, 1, -1]) for _ in range(3)]
        T.append(('Scale %s %s %s', tuple(s), G.scale))
    if r.random() < .3:
        T.append(('Rotate %s %s %s %s', (r.uniform(0, 360), r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(.1, 1)), G.rotate))
    m = np.eye(4)
    L = []
    for f, a, g in T:
        L.append(f % tuple(fl(x) for x in a))
        m = g(*a) @ m
    return L, m


class Case:
    def __init__(self, r, make=None, n=None):
        self.W, self.H = r.choice([(24, 24), (32, 20), (20, 28)])
        self.fov = r.choice([None, 40, 60])
        sw = None
        if self.fov is None:
            a = self.W / self.H
            k = 1.7
            sw = (-k * a, k * a, -k, k)
        elif r.random() < .2:
            sw = (-1.1, .9, -.8, 1.)
        self.cam = G.Camera(self.W, self.H, self.fov, sw)
        self.sw = sw
        self.bucket = r.choice([None, (4, 4), (7, 3), (3, 8), (5, 5)])
        self.grid = r.choice([None, None, 24, 64, 900])
        self.sc = G.Scene(self.cam)
        self.world, self.col = [], []
        self.kinds = []
        for k in range(n or r.randint(1, 3)):
            p = (make or R.any_prim)(r)
            L, m = xforms(r, self.fov)
            c = [round(r.uniform(.1, 1), 3) for _ in range(3)]
            self.col.append(c)
            self.kinds.append(p.kind)
            self.sc.add(p, m, k)
            self.world += ['AttributeBegin', 'Color [%s]' % G.fls(c)] + L + [p.rib, 'AttributeEnd']

    def rib(self):
        o = ['Format %d %d 1' % (self.W, self.H), 'PixelSamples 1 1', 'PixelFilter "box" 1 1', 'Hider "hidden" "int jitter" [0]', 'ShadingRate .25']
        if self.bucket:
            o.append('Option "limits" "int[2] bucketsize" [%d %d]' % self.bucket)
        if self.grid:
            o.append('Option "limits" "int gridsize" [%d]' % self.grid)
        if self.sw:
            o.append('ScreenWindow %s %s %s %s' % tuple(map(fl, self.sw)))
        o.append('Projection "perspective" "fov" [%d]' % self.fov if self.fov else 'Projection "orthographic"')
        o.append('Display "img.log" "rec" "rgbaz" "float[4] quantize" [0 0 0 0]')
        o += ['WorldBegin', 'Surface "vflat"'] + self.world + ['WorldEnd']
        return '\n'.join(o) + '\n'

    def expect(self):
        """per pixel: None (undecided) or (colour, alpha, depth, depth tolerance)"""
        px, shp = G.probe(self.sc)
        out = []
        for offs in px:
            if any(h is None for h in offs):
                out.append(None)
                continue
            first = {(h[0][0] if h else None) for h in offs}
            if len(first) > 1:
                out.append(None)
                continue
            if not offs[0]:
                out.append(((0, 0, 0), 0, None, 0))
                continue
            d = [h[0][1] for h in offs]
            spread = max(d) - min(d)
            if spread > .6:
                out.append(None)
                continue
            out.append((self.col[offs[0][0][0]], 1, d[0], .02 + .8 * spread))
        return out


def compare(chk, c, D, exp, rib, key):
    ch, cnt = D.assemble(c.W, c.H)
    nd = 0
    badc, badz = [], []
    for i, e in enumerate(exp):
        if e is None:
            continue
        nd += 1
        y, x = divmod(i, c.W)
        g = [ch[k][y, x] for k in 'rgb']
        if max(abs(a - b) for a, b in zip(g, e[0])) > 2e-3 or abs(ch['a'][y, x] - e[1]) > 2e-3:
            badc.append((x, y, [round(v, 4) for v in g], round(ch['a'][y, x], 4), e))
        elif e[2] is not None and abs(ch['z'][y, x] - e[2]) > e[3]:
            badz.append((x, y, ch['z'][y, x], e))
    # isolated samples falling between the micropolygons of neighbouring grids
    # are inherent to the method and judged over all scenes together
    few = max(2, .01 * nd)
    if len(badc) > few:
        chk.violation('image:' + key, 'scene of %s: %d of %d decided pixels differ, e.g. pixel (%d,%d) is %s alpha %s, expected %s' % ((key, len(badc), nd) + badc[0]), rib)
    if len(badz) > few:
        chk.violation('depth:' + key, 'scene of %s: depth of %d of %d pixels differs, e.g. pixel (%d,%d) is %r, expected %s' % ((key, len(badz), nd) + badz[0]), rib)
    return nd, len(badc), len(badz)


def main():
    chk = vlib.Check('C07', rule='A case is a random scene of one to three opaque primitives seen through a random camera; a pixel is decided when the reference sees the '
                     'same surface at and around its sample point. Distinct by scene text; non-trivial when pixels of a primitive were decided.')
    vlib.build(['verif_render'])
    env = render.Env(chk, shaders={'vflat': SURF})
    cases = [Case(chk.rng) for _ in range(chk.n(1300, 9000))]
    cases += [Case(chk.rng, lambda r: R.nupatch(r, True), 1) for _ in range(chk.n(4, 20))]
    stray = tot = 0

    def go(c):
        rib = c.rib()
        r, L, d = env.render(rib)
        return c, rib, r, L, c.expect()
    for i in range(0, len(cases), 400):
        for c, rib, r, L, exp in vlib.pmap(go, cases[i:i + 400]):
            if not chk.sanitize(r, 'render', rib):
                continue
            D = L.get('img')
            if not isinstance(D, list) or len(D) != 1:
                chk.violation('no-image', 'no image was delivered: %s' % D, rib)
                continue
            nd, bc, bz = compare(chk, c, D[0], exp, rib, '+'.join(sorted(set(c.kinds))))
            if 'nupatch-range' not in c.kinds:
                stray += bc + bz
                tot += nd
            ns = sum(1 for e in exp if e and e[1])
            chk.count('pixels_decided', nd)
            chk.count('pixels_on_surfaces', ns)
            chk.count('pixels_undecided', len(exp) - nd)
            for k in set(c.kinds):
                chk.count('kind_' + k)
            chk.eval(rib.encode() if ns else None)
    chk.count('pixels_stray', stray)
    if stray > .0008 * tot:
        chk.violation('stray', '%d of %d decided pixels differ over all scenes' % (stray, tot))
    chk.sample({'scene': cases[0].rib()[:700]})
    env.close()
    return chk.finish()
