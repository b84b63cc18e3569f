"""Reference definitions of the shading language's built-in functions, and generators of calls.

Every entry of OPS is (name, result type, generator); a generator takes a Gen and returns
(text, f) where f(env) is the value in double precision; env holds s, t, u, v.
"""
import math
import random


class Undefined(Exception):
    pass


def add(a, b): return tuple(x + y for x, y in zip(a, b))
def sub(a, b): return tuple(x - y for x, y in zip(a, b))
def scale(a, k): return tuple(x * k for x in a)
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def norm(a): return math.sqrt(dot(a, a))
def cross(a, b): return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def unit(a):
    n = norm(a)
    if n < 1e-3:
        raise Undefined()
    return scale(a, 1 / n)


def lift(f):
    """apply per component"""
    def g(*a):
        n = max([len(x) for x in a if isinstance(x, tuple)] or [0])
        if not n:
            return f(*a)
        return tuple(f(*[x[i] if isinstance(x, tuple) else x for x in a]) for i in range(n))
    return g


def near(a, b, e=1e-4):
    return abs(a - b) < e * (1 + abs(a))


def cont(x, y):
    if near(x, y):
        raise Undefined()


def floor(x):
    cont(x, round(x))
    return math.floor(x)


def mod(a, b):
    return a - floor(a / b) * b


def smoothstep(a, b, x):
    if x <= a:
        return 0.
    if x >= b:
        return 1.
    x = (x - a) / (b - a)
    return x * x * (3 - 2 * x)


def step(a, x):
    cont(a, x)
    return 0. if x < a else 1.


def sign(x):
    cont(x, 0.)
    return (x > 0) - (x < 0)


# ------------------------------------------------------------------ matrices (row vectors, as 4 tuples)
def mmul(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(4)) for j in range(4)) for i in range(4))


def minv(a):
    n = 4
    m = [list(a[i]) + [1. if i == j else 0. for j in range(n)] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        if abs(m[p][c]) < 1e-9:
            raise Undefined()
        m[c], m[p] = m[p], m[c]
        k = m[c][c]
        m[c] = [x / k for x in m[c]]
        for r in range(n):
            if r != c and m[r][c]:
                k = m[r][c]
                m[r] = [x - k * y for x, y in zip(m[r], m[c])]
    return tuple(tuple(r[n:]) for r in m)


def mdet(a):
    m = [list(r) for r in a]
    d = 1.
    for c in range(4):
        p = max(range(c, 4), key=lambda r: abs(m[r][c]))
        if not m[p][c]:
            return 0.
        if p != c:
            m[c], m[p] = m[p], m[c]
            d = -d
        d *= m[c][c]
        for r in range(c + 1, 4):
            k = m[r][c] / m[c][c]
            m[r] = [x - k * y for x, y in zip(m[r], m[c])]
    return d


def mtrans(v):
    return ((1., 0., 0., 0.), (0., 1., 0., 0.), (0., 0., 1., 0.), (v[0], v[1], v[2], 1.))


def mscale(v):
    return ((v[0], 0., 0., 0.), (0., v[1], 0., 0.), (0., 0., v[2], 0.), (0., 0., 0., 1.))


def mrot(a, axis):
    """right-handed in the sense of RiRotate; row vectors"""
    x, y, z = unit(axis)
    c, s = math.cos(a), math.sin(a)
    k = 1 - c
    return ((x * x * k + c, x * y * k + z * s, x * z * k - y * s, 0.),
            (x * y * k - z * s, y * y * k + c, y * z * k + x * s, 0.),
            (x * z * k + y * s, y * z * k - x * s, z * z * k + c, 0.), (0., 0., 0., 1.))


def xp(m, p):
    h = tuple(sum(p[i] * m[i][j] for i in range(3)) + m[3][j] for j in range(4))
    if abs(h[3]) < 1e-2:
        raise Undefined()
    return tuple(x / h[3] for x in h[:3])


def xv(m, v):
    return tuple(sum(v[i] * m[i][j] for i in range(3)) for j in range(3))


def xn(m, n):
    i = minv(m)
    return tuple(sum(n[k] * i[j][k] for k in range(3)) for j in range(3))


# ------------------------------------------------------------------ colours
def rgb2hsv(c):
    r, g, b = c
    mx, mn = max(c), min(c)
    d = mx - mn
    if d < .02 or mx < .02:
        raise Undefined()
    order = sorted(c)
    h = ((g - b) / d) % 6 if mx == r else (b - r) / d + 2 if mx == g else (r - g) / d + 4
    if order[2] - order[1] < 1e-3 or h < .01 or h > 5.99:
        raise Undefined()
    return (h / 6, d / mx, mx)


def hsv2rgb(c):
    h, s, v = c
    h = (h % 1) * 6
    f = lambda n: v - v * s * max(0, min((n + h) % 6, 4 - (n + h) % 6, 1))
    return (f(5), f(3), f(1))


def rgb2hsl(c):
    h, _, mx = rgb2hsv(c)
    mn = min(c)
    l = (mx + mn) / 2
    if abs(l - .5) < 1e-3 or l < .02 or l > .98:
        raise Undefined()
    return (h, (mx - mn) / (mx + mn if l < .5 else 2 - mx - mn), l)


def hsl2rgb(c):
    h, s, l = c
    h = (h % 1) * 12
    a = s * min(l, 1 - l)
    f = lambda n: l - a * max(-1, min((n + h) % 12 - 3, 9 - (n + h) % 12, 1))
    return (f(0), f(8), f(4))


def rgb2yiq(c):
    r, g, b = c
    return (.299 * r + .587 * g + .114 * b, .596 * r - .274 * g - .322 * b, .212 * r - .523 * g + .311 * b)


def yiq2rgb(c):
    y, i, q = c
    return (y + .956 * i + .621 * q, y - .272 * i - .647 * q, y - 1.105 * i + 1.702 * q)


XYZ = ((.412453, .357580, .180423), (.212671, .715160, .072169), (.019334, .119193, .950227))


def rgb2xyz(c):
    return tuple(dot(r, c) for r in XYZ)


def xyz2rgb(c):
    m = tuple(r + (0.,) for r in XYZ) + ((0., 0., 0., 1.),)
    i = minv(m)
    return tuple(dot(i[k][:3], c) for k in range(3))


def rgb2xyy(c):
    X, Y, Z = rgb2xyz(c)
    if X + Y + Z < .05:
        raise Undefined()
    return (X / (X + Y + Z), Y / (X + Y + Z), Y)


def xyy2rgb(c):
    x, y, Y = c
    if abs(y) < .05:
        raise Undefined()
    return xyz2rgb((x * Y / y, Y, (1 - x - y) * Y / y))


TO = {'rgb': lambda c: c, 'hsv': rgb2hsv, 'hsl': rgb2hsl, 'YIQ': rgb2yiq, 'XYZ': rgb2xyz, 'xyY': rgb2xyy}
FROM = {'rgb': lambda c: c, 'hsv': hsv2rgb, 'hsl': hsl2rgb, 'YIQ': yiq2rgb, 'XYZ': xyz2rgb, 'xyY': xyy2rgb}

# ------------------------------------------------------------------ splines
BASES = {'catmull-rom': (((-.5, 1.5, -1.5, .5), (1, -2.5, 2, -.5), (-.5, 0, .5, 0), (0, 1, 0, 0)), 1),
         'bezier': (((-1, 3, -3, 1), (3, -6, 3, 0), (-3, 3, 0, 0), (1, 0, 0, 0)), 3),
         'bspline': (((-1 / 6, .5, -.5, 1 / 6), (.5, -1, .5, 0), (-.5, 0, .5, 0), (1 / 6, 2 / 3, 1 / 6, 0)), 1),
         'hermite': (((2, 1, -2, 1), (-3, -2, 3, -1), (0, 1, 0, 0), (1, 0, 0, 0)), 2),
         'power': (((1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)), 4),
         'linear': (((0, 0, 0, 0), (0, 0, 0, 0), (0, -1, 1, 0), (0, 1, 0, 0)), 1)}


def spline(basis, x, pts):
    m, st = BASES[basis]
    segs = (len(pts) - 4) // st + 1
    x = min(max(x, 0.), 1.)
    k = x * segs
    i = min(int(k), segs - 1)
    if st == 4 and near(k, round(k)) and segs > 1:
        raise Undefined()
    f = k - i
    w = [sum(f ** (3 - r) * m[r][c] for r in range(4)) for c in range(4)]
    p = pts[i * st:i * st + 4]
    if isinstance(p[0], tuple):
        return tuple(sum(w[c] * p[c][j] for c in range(4)) for j in range(len(p[0])))
    return sum(w[c] * p[c] for c in range(4))


def refract(I, N, eta):
    d = dot(I, N)
    k = 1 - eta * eta * (1 - d * d)
    if abs(k) < 1e-2:
        raise Undefined()
    return (0., 0., 0.) if k < 0 else sub(scale(I, eta), scale(N, eta * d + math.sqrt(k)))


def fresnel(I, N, eta):
    """unpolarised dielectric reflectance; eta = index outside over index inside"""
    c = -dot(I, N)
    if c < .02:
        raise Undefined()
    k = 1 - eta * eta * (1 - c * c)
    if abs(k) < 1e-2:
        raise Undefined()
    if k < 0:
        return 1.
    ct = math.sqrt(k)
    rs = (eta * c - ct) / (eta * c + ct)
    rp = (c - eta * ct) / (c + eta * ct)
    return (rs * rs + rp * rp) / 2


def ptlined(a, b, q):
    d = sub(b, a)
    k = dot(sub(q, a), d)
    l = dot(d, d)
    if l < 1e-3:
        raise Undefined()
    k = min(max(k / l, 0.), 1.)
    return norm(sub(q, add(a, scale(d, k))))


def faceforward(N, I, ref):
    d = dot(I, ref)
    cont(d, 0.)
    return scale(N, -1. if d > 0 else 1.)


# ------------------------------------------------------------------ generation
NAME = {'f': 'float', 'c': 'color', 'p': 'point', 'v': 'vector', 'n': 'normal', 'm': 'matrix'}


def num(x):
    return '%.6g' % x


class Gen:
    """random arguments; uni lists uniform variables declared so far as (text, type, value)"""
    def __init__(self, r):
        self.r = r
        self.decl = []
        self.n = 0

    def const(self, lo=-2, hi=2):
        x = round(self.r.uniform(lo, hi), 3)
        return x

    def f(self, lo=-2, hi=2):
        """float in [lo, hi] for s, t in [0, 1]"""
        r = self.r
        k = r.random()
        if k < .15:
            x = self.const(lo, hi)
            return (num(x) if x >= 0 else '(%s)' % num(x)), lambda e: x
        if k < .4:
            x = self.const(lo, hi)
            n = 'g%d' % self.n
            self.n += 1
            if r.random() < .6:
                self.decl.append('uniform float %s = %s;' % (n, num(x)))
            else:
                self.decl.append('varying float %s = %s;' % (n, num(x)))
            return n, lambda e: x
        c, d = sorted([self.const(lo, hi), self.const(lo, hi)])
        a = r.choice(['s', 't', '(s * t)', '(1 - s)'])
        g = {'s': lambda e: e['s'], 't': lambda e: e['t'], '(s * t)': lambda e: e['s'] * e['t'], '(1 - s)': lambda e: 1 - e['s']}[a]
        w = round(d - c, 3)
        ex = '(%s * %s + %s)' % (a, num(w), num(c) if c >= 0 else '(%s)' % num(c))
        f = lambda e: g(e) * w + c
        if r.random() < .3:
            n = 'g%d' % self.n
            self.n += 1
            self.decl.append('varying float %s = %s;' % (n, ex))
            return n, f
        return ex, f

    def x(self, lo=-6, hi=6, den=2):
        """an exactly representable multiple of 1/den, where comparisons and whole multiples are exact"""
        v = self.r.randint(lo * den, hi * den) / den
        k = self.r.random()
        if k < .4:
            return (num(v) if v >= 0 else '(%s)' % num(v)), lambda e: v
        n = 'g%d' % self.n
        self.n += 1
        self.decl.append('%s float %s = %s;' % ('uniform' if k < .7 else 'varying', n, num(v)))
        return n, lambda e: v

    def t(self, ty, lo=-2, hi=2):
        """triple"""
        r = self.r
        if r.random() < .3:
            x = tuple(self.const(lo, hi) for _ in range(3))
            n = 'g%d' % self.n
            self.n += 1
            self.decl.append('uniform %s %s = %s(%s);' % (NAME[ty], n, NAME[ty], ', '.join(map(num, x))))
            return n, lambda e: x
        a = [self.f(lo, hi) for _ in range(3)]
        ex = '%s(%s)' % (NAME[ty], ', '.join(x[0] for x in a))
        f = lambda e: tuple(x[1](e) for x in a)
        if r.random() < .4:
            n = 'g%d' % self.n
            self.n += 1
            self.decl.append('varying %s %s = %s;' % (NAME[ty], n, ex))
            return n, f
        return ex, f

    def u(self, ty):
        """unit vector"""
        x, f = self.t(ty)
        return 'normalize(%s)' % x, lambda e: unit(f(e))

    def m(self, affine=False):
        r = self.r
        k = r.random()
        if k < .15:
            x = self.const(.3, 3)
            return 'matrix %s' % num(x) if False else '(matrix %s)' % num(x), lambda e: mscale((x, x, x))[:3] + ((0., 0., 0., x),) if not affine else (mscale((x, x, x)))
        v = [round(r.uniform(-1, 1) + (2 if i % 5 == 0 else 0), 3) for i in range(16)]
        if affine or r.random() < .5:
            v[3] = v[7] = v[11] = 0
            v[15] = 1
        mv = tuple(tuple(v[i * 4:i * 4 + 4]) for i in range(4))
        n = 'g%d' % self.n
        self.n += 1
        self.decl.append('%s matrix %s = matrix(%s);' % (r.choice(['uniform', 'varying']), n, ', '.join(map(num, v))))
        return n, lambda e: mv


def call(name, args, f):
    return '%s(%s)' % (name, ', '.join(a[0] for a in args)), lambda e: f(*[a[1](e) for a in args])


def ops():
    L = []

    def op(name, ty, g):
        L.append((name, ty, g))

    def f1(name, f, lo=-2, hi=2):
        op(name, 'f', lambda g: call(name, [g.f(lo, hi)], f))
    f1('radians', math.radians, -400, 400)
    f1('degrees', math.degrees)
    f1('sin', math.sin, -8, 8)
    f1('cos', math.cos, -8, 8)
    f1('tan', math.tan, -1.4, 1.4)
    f1('asin', math.asin, -.99, .99)
    f1('acos', math.acos, -.99, .99)
    f1('atan', math.atan, -9, 9)
    f1('exp', math.exp, -4, 4)
    f1('sqrt', math.sqrt, 0, 9)
    f1('inversesqrt', lambda x: 1 / math.sqrt(x), .1, 9)
    f1('log', math.log, .05, 9)
    f1('abs', abs)
    f1('sign', sign)
    f1('floor', floor, -5, 5)
    f1('ceil', lambda x: -floor(-x), -5, 5)
    f1('round', lambda x: floor(x + .5), -5, 5)

    def atan2(y, x):
        if abs(x) + abs(y) < .05 or (x < 0 and abs(y) < 1e-3):
            raise Undefined()
        return math.atan2(y, x)
    op('atan2', 'f', lambda g: call('atan', [g.f(), g.f()], atan2))
    op('log2', 'f', lambda g: call('log', [g.f(.05, 9), g.f(1.5, 9)], lambda x, b: math.log(x) / math.log(b)))
    op('pow', 'f', lambda g: call('pow', [g.f(.1, 3), g.f()], math.pow))
    op('powint', 'f', lambda g: (lambda k, x: ('pow(%s, %d)' % (x[0], k), lambda e: x[1](e) ** k))(g.r.randint(1, 4), g.f()))
    op('mod', 'f', lambda g: call('mod', [g.f(-5, 5), g.f(.2, 3)], mod))
    # the same at whole numbers, exact multiples and coinciding arguments
    op('xmod', 'f', lambda g: call('mod', [g.x(), g.x(1, 3)], lambda a, b: a - math.floor(a / b) * b))
    op('xfloor', 'f', lambda g: call('floor', [g.x()], math.floor))
    op('xceil', 'f', lambda g: call('ceil', [g.x()], math.ceil))
    op('xround', 'f', lambda g: call('round', [g.x(den=1)], lambda x: x))
    op('xsign', 'f', lambda g: call('sign', [g.x(-1, 1)], lambda x: (x > 0) - (x < 0)))
    op('xabs', 'f', lambda g: call('abs', [g.x(-1, 1)], abs))
    op('xstep', 'f', lambda g: call('step', [g.x(-1, 1), g.x(-1, 1)], lambda a, x: 1. if x >= a else 0.))
    op('xsmoothstep', 'f', lambda g: call('smoothstep', [g.x(-2, 0, 1), g.x(1, 2, 1), g.x(-3, 3)], smoothstep))
    op('xclamp', 'f', lambda g: call('clamp', [g.x(-2, 2, 1), g.x(-2, 0, 1), g.x(0, 2, 1)], lambda x, a, b: min(max(x, a), b)))
    op('xmin', 'f', lambda g: call('min', [g.x(-1, 1, 1) for _ in range(g.r.randint(2, 5))], lambda *a: min(a)))
    op('xmax', 'f', lambda g: call('max', [g.x(-1, 1, 1) for _ in range(g.r.randint(2, 5))], lambda *a: max(a)))
    op('xmix', 'f', lambda g: call('mix', [g.x(), g.x(), g.x(0, 1, 1)], lambda a, b, k: b if k else a))
    op('xpow', 'f', lambda g: call('pow', [g.x(1, 3), g.x(-3, 3, 1)], math.pow))
    op('xsqrt', 'f', lambda g: (lambda k: ('sqrt(%d)' % (k * k), lambda e: float(k)))(g.r.randint(0, 9)))
    op('step', 'f', lambda g: call('step', [g.f(), g.f()], step))
    op('smoothstep', 'f', lambda g: call('smoothstep', [g.f(-1, 0), g.f(.1, 1.5), g.f()], smoothstep))
    op('mixf', 'f', lambda g: call('mix', [g.f(), g.f(), g.f(-.5, 1.5)], lambda a, b, k: a * (1 - k) + b * k))
    op('filterstep2', 'f', lambda g: call('filterstep', [g.f(), g.f(-1, 0), g.f(.2, 1)],
                                         lambda e, a, b: min(max((a + (b - a) / 2 - e) / (b - a), 0.), 1.)))
    for ty in 'fcpvn':
        tri = (lambda t: (lambda g, lo=-2, hi=2: g.f(lo, hi)) if t == 'f' else (lambda g, lo=-2, hi=2: g.t(t, lo, hi)))(ty)
        for nm, fn in (('min', min), ('max', max)):
            op(nm + ty, ty, (lambda nm, fn, tri: lambda g: call(nm, [tri(g) for _ in range(g.r.randint(2, 5))], lift(lambda *a: fn(a))))(nm, fn, tri))
        op('clamp' + ty, ty, (lambda tri: lambda g: call('clamp', [tri(g), tri(g, -1.5, -.1), tri(g, .1, 1.5)], lift(lambda x, a, b: min(max(x, a), b))))(tri))
        if ty != 'f':
            op('mix' + ty, ty, (lambda tri: lambda g: call('mix', [tri(g), tri(g), g.f(-.5, 1.5)], lift(lambda a, b, k: a * (1 - k) + b * k)))(tri))
            op('mixc' + ty, ty, (lambda tri: lambda g: call('mix', [tri(g), tri(g), g.t('c', -.5, 1.5)], lift(lambda a, b, k: a * (1 - k) + b * k)))(tri))
            if ty != 'c':
                for i, c in enumerate('xyz'):
                    op(c + 'comp' + ty, 'f', (lambda tri, i, c: lambda g: call(c + 'comp', [tri(g)], lambda p: p[i]))(tri, i, c))
                    op('set' + c + 'comp' + ty, ty, (lambda ty, tri, i, c: lambda g: setcomp(g, ty, tri(g), 'set%scomp(%%s, %%s)' % c, i, g.f()))(ty, tri, i, c))
        if ty in 'fcpv':
            op('spline' + ty, ty, (lambda tri, ty: lambda g: splines(g, tri, ty))(tri, ty))
    op('comp', 'f', lambda g: (lambda i, c: ('comp(%s, %d)' % (c[0], i), lambda e: c[1](e)[i]))(g.r.randrange(3), g.t('c')))
    op('setcomp', 'c', lambda g: (lambda i: setcomp(g, 'c', g.t('c'), 'setcomp(%%s, %d, %%s)' % i, i, g.f()))(g.r.randrange(3)))
    for ty in 'pvn':
        op('length' + ty, 'f', (lambda ty: lambda g: call('length', [g.t(ty)], norm))(ty))
        op('normalize' + ty, ty, (lambda ty: lambda g: call('normalize', [g.t(ty)], unit))(ty))
        op('dot' + ty, 'f', (lambda ty: lambda g: (lambda a, b: ('%s . %s' % (a[0], b[0]), lambda e: dot(a[1](e), b[1](e))))(g.t(ty), g.t(ty)))(ty))
        op('cross' + ty, ty, (lambda ty: lambda g: (lambda a, b: ('%s ^ %s' % (a[0], b[0]), lambda e: cross(a[1](e), b[1](e))))(g.t(ty), g.t(ty)))(ty))
    op('distance', 'f', lambda g: call('distance', [g.t('p'), g.t('p')], lambda a, b: norm(sub(a, b))))
    op('ptlined', 'f', lambda g: call('ptlined', [g.t('p'), g.t('p'), g.t('p')], ptlined))
    op('faceforward', 'n', lambda g: call('faceforward', [g.t('n'), g.t('v'), g.t('n')], faceforward))
    op('reflect', 'v', lambda g: call('reflect', [g.u('v'), g.u('n')], lambda i, n: sub(i, scale(n, 2 * dot(i, n)))))
    op('refract', 'v', lambda g: call('refract', [g.u('v'), g.u('n'), g.f(.5, 1.8)], refract))
    op('fresnelKr', 'f', lambda g: fres(g, 0))
    op('fresnelKt', 'f', lambda g: fres(g, 1))
    op('fresnelR', 'v', lambda g: fres(g, 2))
    op('fresnelT', 'v', lambda g: fres(g, 3))

    def rotate(q, a, p0, p1):
        return add(xp(mrot(a, sub(p1, p0)), sub(q, p0)), p0)
    op('rotate', 'p', lambda g: call('rotate', [g.t('p'), g.f(-4, 4), g.t('p'), g.t('p')], rotate))
    op('transformm', 'p', lambda g: call('transform', [g.m(), g.t('p')], xp))
    op('vtransformm', 'v', lambda g: call('vtransform', [g.m(True), g.t('v')], xv))
    op('ntransformm', 'n', lambda g: call('ntransform', [g.m(True), g.t('n')], xn))
    op('determinant', 'f', lambda g: call('determinant', [g.m()], mdet))
    op('mcomp', 'f', lambda g: (lambda m, i, j: ('comp(%s, %d, %d)' % (m[0], i, j), lambda e: m[1](e)[i][j]))(g.m(), g.r.randrange(4), g.r.randrange(4)))
    op('mulm', 'p', lambda g: mat2(g, '*', lambda a, b: mmul(b, a)))      # aqsis composes like functions: b, then a
    op('divm', 'p', lambda g: mat2(g, '/', lambda a, b: mmul(minv(b), a)))
    op('mtranslate', 'p', lambda g: mfun(g, 'translate', [g.t('v')], mtrans))
    op('mscale', 'p', lambda g: mfun(g, 'scale', [g.t('p', .3, 2)], mscale))
    op('mrotate', 'p', lambda g: mfun(g, 'rotate', [g.f(-4, 4), g.t('v')], mrot))
    op('msetcomp', 'p', msetcomp)
    for a in sorted(TO):
        op('color_' + a, 'c', (lambda a: lambda g: (lambda x: ('color "%s" (%s)' % (a, ', '.join(q[0] for q in x)), lambda e: FROM[a](tuple(q[1](e) for q in x))))([g.f(.05, .95) for _ in range(3)]))(a))
        op('ctransform_' + a, 'c', (lambda a: lambda g: (lambda x: ('ctransform("%s", %s)' % (a, x[0]), lambda e: TO[a](x[1](e))))(g.t('c', .05, .95)))(a))
        for b in sorted(TO):
            if b != a:
                op('ctransform_%s_%s' % (a, b), 'c', (lambda a, b: lambda g: (lambda x: ('ctransform("%s", "%s", %s)' % (a, b, x[0]), lambda e: TO[b](FROM[a](x[1](e)))))(g.t('c', .3, .6)))(a, b))
    for a in ('hsv', 'hsl'):
        op('grey_' + a, 'c', (lambda a: lambda g: (lambda h, l: ('color "%s" (%s, 0, %s)' % (a, h[0], l[0]), lambda e: (l[1](e),) * 3))(g.f(.05, .95), g.f(.05, .95)))(a))
        for i, want in ((1, lambda x: 0.), (2, lambda x: x)):
            op('togrey_%s%d' % (a, i), 'f', (lambda a, i, want: lambda g: (lambda l: ('comp(ctransform("%s", color(%s, %s, %s)), %d)' % (a, l[0], l[0], l[0], i), lambda e: want(l[1](e))))(g.f(.05, .95)))(a, i, want))
    for ty in 'fcpv':
        op('noise_' + ty, 'f', (lambda ty: lambda g: noises(g, ty, 'noise'))(ty))
        op('pnoise_' + ty, 'f', (lambda ty: lambda g: noises(g, ty, 'pnoise'))(ty))
        op('cellnoise_' + ty, 'f', (lambda ty: lambda g: noises(g, ty, 'cellnoise'))(ty))
        op('D_' + ty, ty, (lambda ty: lambda g: derivs(g, ty))(ty))
    op('D_n', 'n', lambda g: derivs(g, 'n'))
    op('random', 'f', lambda g: ('(random() >= 0 && random() <= 1) ? 1 : 0', lambda e: 1.))
    op('concat', 'f', strings_concat)
    op('format', 'f', strings_format)
    op('match', 'f', strings_match)
    return L


def setcomp(g, ty, x, pat, i, y):
    n = 'h%d' % g.n
    g.n += 1
    g.decl.append('varying %s %s = %s;' % (NAME[ty], n, x[0]))
    return (n, pat % (n, y[0])), lambda e: tuple(y[1](e) if k == i else q for k, q in enumerate(x[1](e)))


def splines(g, tri, ty):
    r = g.r
    basis = r.choice(['', '', '', 'catmull-rom', 'bezier', 'bspline', 'hermite', 'linear', 'power'])
    b = basis or 'catmull-rom'
    st = BASES[b][1]
    n = 4 + st * r.randint(0, 3)
    pts = [tri(g) for _ in range(n)]
    x = g.f(-.2, 1.2)
    a = ([('"%s"' % basis, None)] if basis else []) + [x] + pts
    if r.random() < .3:
        # as an array
        nm = 'h%d' % g.n
        g.n += 1
        g.decl.append('varying %s %s[%d] = { %s };' % (NAME[ty], nm, n, ', '.join(p[0] for p in pts)))
        a = a[:-n] + [(nm, None)]
    return 'spline(%s)' % ', '.join(q[0] for q in a), lambda e: spline(b, x[1](e), [p[1](e) for p in pts])


def fres(g, k):
    n = g.n
    g.n += 1
    I, N, eta = g.u('v'), g.u('n'), g.f(.5, 1.8)
    g.decl.append('float kr%d = 0, kt%d = 0; vector fr%d = 0, ft%d = 0;' % (n, n, n, n))
    if k < 2 and g.r.random() < .5:
        g.decl.append('fresnel(%s, %s, %s, kr%d, kt%d);' % (I[0], N[0], eta[0], n, n))
    else:
        g.decl.append('fresnel(%s, %s, %s, kr%d, kt%d, fr%d, ft%d);' % (I[0], N[0], eta[0], n, n, n, n))

    def f(e):
        i, nn, h = I[1](e), N[1](e), eta[1](e)
        kr = fresnel(i, nn, h)
        if k == 0:
            return kr
        if k == 1:
            return 1 - kr
        return sub(i, scale(nn, 2 * dot(i, nn))) if k == 2 else refract(i, nn, h)
    return '%s%d' % (['kr', 'kt', 'fr', 'ft'][k], n), f


def mat2(g, op, f):
    a, b, p = g.m(), g.m(), g.t('p')
    return 'transform((%s) %s (%s), %s)' % (a[0], op, b[0], p[0]), lambda e: xp(f(a[1](e), b[1](e)), p[1](e))


def mfun(g, name, args, f):
    m, p = g.m(), g.t('p')
    return 'transform(%s(%s, %s), %s)' % (name, m[0], ', '.join(a[0] for a in args), p[0]), lambda e: xp(mmul(m[1](e), f(*[a[1](e) for a in args])), p[1](e))


def msetcomp(g):
    m, p, x = g.m(), g.t('p'), g.f()
    i, j = g.r.randrange(4), g.r.randrange(4)
    n = 'h%d' % g.n
    g.n += 1
    g.decl.append('varying matrix %s = %s;' % (n, m[0]))

    def f(e):
        q = [list(r) for r in m[1](e)]
        q[i][j] = x[1](e)
        return xp(q, p[1](e))
    return ('transform(%s, %s)' % (n, p[0]), 'setcomp(%s, %d, %d, %s)' % (n, i, j, x[0])), f


def noises(g, ty, name):
    """a comparison of two noise values that must hold"""
    r = g.r
    dim = r.randint(1, 4)
    T = [g.f(-9, 9)] if dim == 1 else [g.f(-9, 9), g.f(-9, 9)] if dim == 2 else [g.t('p', -9, 9)] if dim == 3 else [g.t('p', -9, 9), g.f(-9, 9)]
    A = []
    for x in T:                                  # the arguments in variables
        n = 'h%d' % g.n
        g.n += 1
        g.decl.append('varying %s %s = %s;' % ('float' if x is not T[0] or dim < 3 else 'point', n, x[0]))
        A.append(n)
    cast = {'f': 'float', 'c': 'color', 'p': 'point', 'v': 'vector'}[ty]
    n = 'h%d' % g.n
    g.n += 1

    def val(args):
        return '%s %s(%s)' % (cast, name, ', '.join(args))
    tol = 1e-5
    f = lambda e: 1.
    if name != 'pnoise' and r.random() < .25:
        # the same argument, uniform and varying
        P, Q = [], []
        for k, x in enumerate(T):
            t = 'point' if k == 0 and dim > 2 else 'float'
            v = [num(round(r.uniform(-9, 9), 3)) for _ in range(3)]
            v = 'point(%s)' % ', '.join(v) if t == 'point' else v[0]
            for cl, L in (('uniform', P), ('varying', Q)):
                g.decl.append('%s %s k%d = %s;' % (cl, t, g.n, v))
                L.append('k%d' % g.n)
                g.n += 1
        one, two = val(P), val(Q)
    elif name == 'pnoise':
        per = [r.randint(1, 7) for _ in range(4)]
        pargs, shift = [], []
        if dim == 1:
            pargs, shift = [A[0], num(per[0])], ['%s + %d' % (A[0], per[0]), num(per[0])]
        elif dim == 2:
            pargs = [A[0], A[1], num(per[0]), num(per[1])]
            shift = ['%s + %d' % (A[0], per[0]), '%s - %d' % (A[1], 2 * per[1]), num(per[0]), num(per[1])]
        else:
            pp = 'point(%d, %d, %d)' % tuple(per[:3])
            pargs = [A[0], pp] if dim == 3 else [A[0], A[1], pp, num(per[3])]
            q = '%s + point(%d, 0, %d)' % (A[0], per[0], -per[2])
            shift = [q, pp] if dim == 3 else [q, '%s + %d' % (A[1], per[3]), pp, num(per[3])]
        one, two, tol = val(pargs), val(shift), 2e-3
    elif name == 'cellnoise':
        fl = lambda a: 'floor(%s) + %s' % (a, num(r.choice([.25, .5, .75])))
        fp = lambda a: 'point(%s, %s, %s)' % (fl('xcomp(%s)' % a), fl('ycomp(%s)' % a), fl('zcomp(%s)' % a))
        one, two = val(A), val([fp(A[0]) if dim > 2 else fl(A[0])] + [fl(a) for a in A[1:]])

        def f(e):
            for x in T:
                v = x[1](e)
                for q in (v if isinstance(v, tuple) else (v,)):
                    cont(q, round(q))
            return 1.
    else:
        # continuity, also across the cells
        k = r.randint(-9, 9)
        if r.random() < .5:
            d = num(1e-4)
            if dim > 2:
                a, b = 'point(%d + %s, %s, %s)' % (k, d, 'ycomp(%s)' % A[0], 'zcomp(%s)' % A[0]), 'point(%d - %s, %s, %s)' % (k, d, 'ycomp(%s)' % A[0], 'zcomp(%s)' % A[0])
            else:
                a, b = '%d + %s' % (k, d), '%d - %s' % (k, d)
            one, two, tol = val([a] + A[1:]), val([b] + A[1:]), 5e-3
        else:
            B = ['%s + %s' % (a, num(1e-4)) for a in A]
            one, two, tol = val(A), val(B), 5e-3
    g.decl.append('varying %s %sa = %s;' % (NAME[ty], n, one))
    g.decl.append('varying %s %sb = %s;' % (NAME[ty], n, two))
    rng = lambda x: '(%s >= 0 && %s <= 1)' % (x, x)
    if ty == 'f':
        cond = 'abs(%sa - %sb) <= %s && %s' % (n, n, num(tol), rng(n + 'a'))
    else:
        c = (lambda v, i: 'comp(%s, %d)' % (v, i)) if ty == 'c' else (lambda v, i: '%scomp(%s)' % ('xyz'[i], v))
        cond = ' && '.join('abs(%s - %s) <= %s && %s' % (c(n + 'a', i), c(n + 'b', i), num(tol), rng(c(n + 'a', i))) for i in range(3))
    return '(%s) ? 1 : 0' % cond, f


def derivs(g, ty):
    """derivatives of linear functions of u and v"""
    r = g.r
    a, b, c, d = [round(r.choice([-1, 1]) * r.uniform(.3, 3), 2) for _ in range(4)]
    k = [1, round(r.uniform(-2, 2), 2), round(r.uniform(-2, 2), 2)]
    lin = '(%s * u + %s * v)' % (num(a), num(b))
    x = lin if ty == 'f' else '%s(%s)' % (NAME[ty], ', '.join('%s * %s' % (num(q), lin) for q in k))
    op = r.choice(['Du', 'Dv', 'Deriv'])
    w = {'Du': a, 'Dv': b, 'Deriv': 1 / c}[op]
    t = '%s(%s)' % (op, x) if op != 'Deriv' else 'Deriv(%s, %s * %s)' % (x, num(c), lin)
    v = w if ty == 'f' else tuple(w * q for q in k)
    return t, lambda e: v


WORDS = ['a', 'on', 'x1', 'tex.tif', '', 'b c']


def strings_concat(g):
    r = g.r
    w = [r.choice(WORDS) for _ in range(r.randint(2, 4))]
    ref = ''.join(w) if r.random() < .7 else ''.join(reversed(w))
    v = 1. if ref == ''.join(w) else 0.
    return '(concat(%s) == "%s") ? 1 : 0' % (', '.join('"%s"' % x for x in w), ref), lambda e: v


def strings_format(g):
    r = g.r
    k = r.randint(-99, 99)
    fm, args, out = r.choice([('v%f', [str(k)], 'v%d' % k), ('%f %f', [str(k), '3.5'], '%d 3.5' % k), ('%s.%s', ['"a"', '"tif"'], 'a.tif'), 
                              ('%p', ['point(1, 2, 3.5)'], '1,2,3.5'), ('%c', ['color(1, 0, .5)'], '1,0,0.5'), ('100%%', [], '100%'), ('%f%s', ['.25', '"x"'], '0.25x')])
    ref = out if r.random() < .7 else out + '0'
    v = 1. if ref == out else 0.
    return '(format(%s) == "%s") ? 1 : 0' % (', '.join(['"%s"' % fm] + args), ref), lambda e: v


def strings_match(g):
    r = g.r
    pat, s, v = r.choice([('a', 'cat', 1), ('b', 'cat', 0), ('c.t', 'cat', 1), ('^at', 'cat', 0), ('^ca', 'cat', 1), ('[xyz]', 'zoo', 1), ('o*$', 'zoo', 1), ('[0-9][0-9]*', 'a12', 1), ('[0-9]', 'abc', 0), ('ab*c', 'xacx', 1)])
    return 'match("%s", "%s")' % (pat, s), lambda e: float(v)


def value(f, env):
    """value at env if well conditioned there, else None"""
    try:
        a = f(env)
        q = dict(env)
        q['s'] += 2e-6
        q['t'] -= 2e-6
        b = f(q)
    except (Undefined, ValueError, ZeroDivisionError, OverflowError):
        return None
    ta, tb = (a if isinstance(a, tuple) else (a,)), (b if isinstance(b, tuple) else (b,))
    if any(abs(x - y) > 5e-5 * (1 + abs(x)) or abs(x) > 1e5 for x, y in zip(ta, tb)):
        return None
    return a
