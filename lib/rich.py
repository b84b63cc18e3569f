"""Random scenes that use much of the renderer: every primitive, shading with
noise and displacement, lights, transparency, motion, CSG."""
import math
import refprims as R
from refgeo import fl, fls

SHADERS = {
    'vmatte': 'surface vmatte(float Kd = .8, Ka = .3;) { normal Nf = faceforward(normalize(N), I); Oi = Os; Ci = Os * Cs * (Ka + Kd * diffuse(Nf)); }\n',
    'vnoise': 'surface vnoise(float freq = 3;) { float n = noise(freq * transform("shader", P)); Oi = Os * smoothstep(.1, .5, n); Ci = Oi * mix(Cs, color(n, 1 - n, .5), .5); }\n',
    'vuv': 'surface vuv() { Oi = Os; Ci = Os * color(mod(u * 4, 1), mod(v * 4, 1), .5 * (s + t)) * Cs; }\n',
    'vflat': 'surface vflat() { Oi = Os; Ci = Cs * Os; }\n',
    'vbump': 'displacement vbump(float Km = .1, freq = 4;) { P += Km * noise(freq * transform("object", P)) * normalize(N); N = calculatenormal(P); }\n',
    'vdist': 'light vdist(float intensity = 1; color lightcolor = 1; vector dir = vector "shader" (0, 0, 1);) { solar(dir, 0) { Cl = intensity * lightcolor; } }\n',
    'vpoint': 'light vpoint(float intensity = 8; color lightcolor = 1; point from = point "shader" (0, 0, 0);) { illuminate(from) { Cl = intensity * lightcolor / (L . L); } }\n',
    'vfog': 'volume vfog(float d = 12; color background = color(.2, .3, .4);) { float k = 1 - exp(-length(I) / d); Ci = mix(Ci, background, k); Oi = mix(Oi, color(1, 1, 1), k); }\n',
    'vimg': 'imager vimg(color bg = color(.1, .2, .3);) { Ci += (1 - alpha) * bg; Oi = 1; alpha = 1; }\n',
}


def curves(r):
    typ = r.choice(['linear', 'cubic'])
    n = r.randint(1, 4)
    nv = [r.randint(2, 6) if typ == 'linear' else r.choice([4, 7]) for _ in range(n)]
    P = []
    for k in nv:
        x, y, z = [r.uniform(-.9, .9) for _ in range(3)]
        for _ in range(k):
            P += [x, y, z]
            x, y, z = x + r.uniform(-.4, .4), y + r.uniform(-.4, .4), z + r.uniform(-.3, .3)
    w = '"constantwidth" [%s]' % fl(r.uniform(.03, .2))
    if r.random() < .5:
        nvar = sum(nv) if typ == 'linear' else sum((k - 4) // 3 + 2 for k in nv)
        w = '"varying float width" [%s]' % fls([r.uniform(.02, .2) for _ in range(nvar)])
    pre = 'Basis "bezier" 3 "bezier" 3 ' if typ == 'cubic' else ''
    return pre + 'Curves "%s" [%s] "nonperiodic" "P" [%s] %s' % (typ, ' '.join(map(str, nv)), fls(P), w)


def points(r):
    n = r.randint(1, 12)
    w = '"constantwidth" [%s]' % fl(r.uniform(.05, .3)) if r.random() < .5 else '"varying float width" [%s]' % fls([r.uniform(.03, .3) for _ in range(n)])
    return 'Points "P" [%s] %s' % (fls([r.uniform(-.9, .9) for _ in range(3 * n)]), w)


def blobby(r):
    n = r.randint(1, 3)
    code, flt = [], []
    for k in range(n):
        code += [1001, len(flt)]
        s = r.uniform(.6, 1.1)
        flt += [s, 0, 0, 0, 0, s, 0, 0, 0, 0, s, 0, r.uniform(-.4, .4), r.uniform(-.4, .4), r.uniform(-.4, .4), 1]
    code += [0, n] + list(range(n))
    return 'Blobby %d [%s] [%s] [""]' % (n, ' '.join(map(str, code)), fls(flt))


def prim(r, blob=True):
    k = r.random()
    if k < .72:
        rib = R.any_prim(r).rib
        while '"corner"' in rib:        # equal only to rounding: the order of the sums depends on which faces were split first
            rib = R.any_prim(r).rib
        return rib
    if k < .83:
        return curves(r)
    if k < .95 or not blob:
        return points(r)
    return blobby(r)


def xf(r, spread=1.3, z=(3, 6)):
    L = ['Translate %s %s %s' % (fl(r.uniform(-spread, spread)), fl(r.uniform(-spread, spread)), fl(r.uniform(*z))),
         'Rotate %s %s %s %s' % (fl(r.uniform(0, 360)), fl(r.uniform(-1, 1)), fl(r.uniform(-1, 1)), fl(r.uniform(.1, 1)))]
    if r.random() < .3:
        L.append('Scale %s %s %s' % tuple(fl(r.uniform(.6, 1.3)) for _ in range(3)))
    return L


def obj(r, motion=False, disp=True, lights=True, csg=True, blob=True):
    """one object as a list of RIB lines"""
    o = ['AttributeBegin', 'Color [%s]' % fls([round(r.uniform(.1, 1), 3) for _ in range(3)])]
    if r.random() < .35:
        o.append('Opacity [%s]' % fls([round(r.uniform(.1, .95), 3) for _ in range(3)] if r.random() < .4 else [round(r.uniform(.1, .95), 3)] * 3))
    if r.random() < .1:
        o.append('Matte 1')
    o.append(r.choice(['Surface "vmatte"', 'Surface "vmatte" "Kd" [.5]', 'Surface "vnoise" "freq" [%s]' % fl(r.uniform(1, 5)), 'Surface "vuv"', 'Surface "vflat"']))
    o.append('ShadingRate %s' % fl(r.choice([.25, .5, 1, 2, 5])))
    if r.random() < .2:
        o.append('ShadingInterpolation "smooth"')
    if r.random() < .2:
        o.append('Sides 1')
    if r.random() < .1:
        o.append('Atmosphere "vfog"')
    X = xf(r)
    if motion and r.random() < .6:
        m = r.random()
        d = [r.uniform(-.8, .8) for _ in range(3)]
        o += X
        if m < .5:
            o += ['MotionBegin [0 1]', 'Translate 0 0 0', 'Translate %s' % fls(d), 'MotionEnd']
        elif m < .8:
            a = [r.uniform(-1, 1) for _ in range(3)]
            o += ['MotionBegin [0 1]', 'Rotate 0 %s' % fls(a), 'Rotate %s %s' % (fl(r.uniform(-60, 60)), fls(a)), 'MotionEnd']
        else:
            o += ['MotionBegin [0 .5 1]', 'Translate 0 0 0', 'Translate %s' % fls(d), 'Translate %s' % fls([d[1], d[2], d[0]]), 'MotionEnd']
    else:
        o += X
    if disp and r.random() < .2:
        o += ['Displacement "vbump" "Km" [%s]' % fl(r.uniform(.02, .15)), 'Attribute "displacementbound" "float sphere" [.2] "string coordinatesystem" ["object"]']
    if csg and r.random() < .08:
        op = r.choice(['union', 'intersection', 'difference'])
        o += ['SolidBegin "%s"' % op, 'SolidBegin "primitive"', 'Sphere .8 -.8 .8 360', 'SolidEnd', 'AttributeBegin',
              'Translate %s' % fls([r.uniform(-.6, .6) for _ in range(3)]), 'SolidBegin "primitive"', 'Sphere .7 -.7 .7 360', 'SolidEnd', 'AttributeEnd', 'SolidEnd']
    else:
        o.append(prim(r, blob))
    o.append('AttributeEnd')
    return o


def lights(r):
    L = []
    if r.random() < .7:
        L.append('LightSource "vdist" 1 "intensity" [%s] "dir" [%s]' % (fl(r.uniform(.3, 1)), fls([r.uniform(-1, 1), r.uniform(-1, 1), 1])))
    if r.random() < .4:
        L.append('LightSource "vpoint" 2 "from" [%s]' % fls([r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(0, 2)]))
    return L


def world(r, n=None, **k):
    """-> (light lines, list of objects)"""
    return lights(r), [obj(r, **k) for _ in range(n or r.randint(1, 5))]
