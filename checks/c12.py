"""C12: names and state reach shaders."""
import numpy as np
import vlib, render

NC = 4                       # cells per side
PX = 3                       # pixels per cell side
N = NC * PX
NOUT = 14
RES = set('''P N Ng I E Cs Os Ci Oi Cl Ol L s t u v du dv dPdu dPdv ncomps time dPdtime alpha cl ol ps dtime if else while for break continue return float
color point vector normal matrix string void uniform varying output extern surface displacement light volume imager transformation illuminate illuminance solar
gather PI abs acos area asin atan ceil cos sin tan exp log pow sqrt min max mod sign floor round step mix clamp smoothstep noise pnoise cellnoise random
length distance depth normalize rotate reflect refract fresnel transform atmosphere attribute option rendererinfo lightsource texture environment shadow
trace match format concat printf translate scale determinant spline filterstep bake occlusion rayinfo incident opposite indirectdiffuse shadername ambient
diffuse specular specularbrdf phong Deriv Du Dv comp setcomp xcomp ycomp zcomp setxcomp setycomp setzcomp vtransform ntransform mtransform ctransform
textureinfo inversesqrt degrees radians faceforward calculatenormal ptlined bump texture3d bake3d indirect subsurface caustic hpoint integer int bool vertex
facevarying facevertex constant do arrayof'''.split())
AL = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def ok(n):
    return n and n not in RES and n[0] in AL + '_' and all(c in AL + '0123456789_' for c in n) and not (n[0] == 'o' and n[1:].isdigit()) and n not in ('iu', 'iv') \
        and not n.startswith('q_')


def twins(r, n):
    """names easily taken for n"""
    for _ in range(50):
        k = r.randrange(8)
        i = r.randrange(len(n))
        if k <= 1 and i + 1 < len(n):
            m = r.choice([31, 33, 65599 % 256, 37])
            d = r.choice([1, -1, 2])
            a, b = ord(n[i]) + d, ord(n[i + 1]) - d * m
            if not (0 < a < 127 and 0 < b < 127):
                continue
            o = n[:i] + chr(a) + chr(b) + n[i + 2:]
        elif k == 2 and i + 1 < len(n):
            o = n[:i] + n[i + 1] + n[i] + n[i + 2:]
        elif k == 3:
            o = n[:i] + n[i].swapcase() + n[i + 1:]
        elif k == 4:
            o = n + r.choice(AL + '0123456789_')
        elif k == 5:
            o = n[:-1]
        elif k == 6:
            o = n[:i] + r.choice(AL) + n[i + 1:]
        else:
            o = r.choice(AL) + n
        if ok(o) and o != n:
            return o
    return n + '_'


def pool(r, k):
    out = []
    while len(out) < k:
        if out and r.random() < .7:
            n = twins(r, r.choice(out))
        else:
            n = ''.join(r.choice(AL) for _ in range(r.choice([1, 2, 2, 3, 5, 12, 60])))
            if r.random() < .3:
                n = r.choice(['Aa', 'BB', 'AaAa', 'BBBB', 'AaBB', 'BBAa', 'it', 'k6', 'jU', 'kt']) + n
        if ok(n) and n not in out:
            out.append(n)
    return out


def num(x):
    return '%.6g' % x


def utype(r, opt):
    """type and array length of a user attribute or option"""
    return r.choice(['float', 'string', 'color', 'point'] if opt else ['float', 'string']), r.choice([0, 0, 2, 3, 4])


def uvalue(r, opt):
    ty, arr = utype(r, opt)
    v = [rv(r, ty) for _ in range(arr or 1)]
    return (ty, arr), v, r.choice(['', 'uniform ']) + ty + ('[%d]' % arr if arr else '')


class M:
    """row-vector transformations"""
    @staticmethod
    def trs(r):
        k = r.randrange(4)
        if k == 0:
            v = [round(r.uniform(-3, 3), 2) for _ in range(3)]
            m = np.eye(4)
            m[3, :3] = v
            return 'Translate %s' % ' '.join(map(num, v)), m
        if k == 1:
            v = [round(r.choice([-1, 1]) * r.uniform(.5, 2), 2) for _ in range(3)]
            return 'Scale %s' % ' '.join(map(num, v)), np.diag(v + [1])
        if k == 2:
            ang = round(r.uniform(-180, 180), 1)
            ax = np.array([round(r.uniform(-1, 1), 2) for _ in range(2)] + [round(r.uniform(.3, 1), 2)])
            a, t = ax / np.linalg.norm(ax), np.radians(ang)
            K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
            R = np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K @ K
            m = np.eye(4)
            m[:3, :3] = R.T
            return 'Rotate %s %s' % (num(ang), ' '.join(map(num, ax))), m
        m = np.eye(4)
        m[:3, :3] += np.array([[round(r.uniform(-.3, .3), 2) for _ in range(3)] for _ in range(3)])
        m[3, :3] = [round(r.uniform(-2, 2), 2) for _ in range(3)]
        return 'ConcatTransform [%s]' % ' '.join(num(x) for x in m.flat), m


def pt(m, p):
    q = np.append(np.asarray(p, float), 1) @ m
    return q[:3] / q[3]


def vec(m, p):
    return np.asarray(p, float) @ m[:3, :3]


def nrm(m, p):
    return np.asarray(p, float) @ np.linalg.inv(m[:3, :3]).T


XF = {'point': pt, 'vector': vec, 'normal': nrm}
FN = {'point': 'transform', 'vector': 'vtransform', 'normal': 'ntransform'}
TYPES = ['float', 'color', 'point', 'vector', 'normal', 'string']
WORDS = ['', 'a', 'A', 'plain', 'two words', 'x_1']


def rv(r, ty):
    if ty == 'string':
        return r.choice(WORDS)
    return [round(r.uniform(-2, 2), 2) for _ in range(1 if ty == 'float' else 3)]


def sl(ty, v):
    if ty == 'string':
        return '"%s"' % v
    return num(v[0]) if ty == 'float' else '%s(%s)' % (ty, ','.join(map(num, v)))


def ribv(ty, v):
    return '"%s"' % v if ty == 'string' else ' '.join(map(num, v))


def show(ty, n):
    """an expression for the value as a colour"""
    if ty == 'float':
        return 'color(%s,0,0)' % n
    if ty == 'string':
        return 'color(%s,1,0)' % ' + '.join('q_is(%s,"%s")*%d' % (n, w, i + 1) for i, w in enumerate(WORDS))
    return n if ty == 'color' else 'color(xcomp(%s),ycomp(%s),zcomp(%s))' % (n, n, n)


def want(ty, v):
    if ty == 'float':
        return (v[0], 0, 0)
    if ty == 'string':
        return (WORDS.index(v) + 1., 1, 0)
    return tuple(v)


HELP = 'float q_is(string a; string b;) { float q_r = 0; if (a == b) q_r = 1; return q_r; }\n'


class Param:
    def __init__(self, r, name):
        self.name, self.ty = name, r.choice(TYPES)
        self.cls = r.choice(['uniform', 'varying']) if self.ty != 'string' else 'uniform'
        self.arr = r.choice([2, 3, 5]) if r.random() < .2 else 0
        self.dflt = [rv(r, self.ty) for _ in range(self.arr or 1)]
        self.space = None
        if not self.arr and self.ty in XF and r.random() < .3:
            self.space = r.choice(['world', 'shader', 'camera', 'current'])

    def decl(self):
        if self.arr:
            d = '{%s}' % ','.join(sl(self.ty, v) for v in self.dflt)
        else:
            d = sl(self.ty, self.dflt[0])
            if self.space:
                d = d.replace('(', ' "%s" (' % self.space, 1)
        return '%s %s %s%s = %s;' % (self.cls, self.ty, self.name, '[%d]' % self.arr if self.arr else '', d)


class Shader:
    def __init__(self, r, kind, name, names):
        self.kind, self.name = kind, name
        self.params = [Param(r, n) for n in names]
        self.q = []

    def text(self, r, sc):
        """sc: the scene, for the names to ask for"""
        head = ' '.join(p.decl() for p in self.params)
        if self.kind != 'surface':
            outs = ''.join('output varying %s %s = %s; ' % (t, n, sl(t, v)) for n, t, v in self.outs)
            return HELP + '%s %s(%s %s) { %s }\n' % (self.kind, self.name, head, outs, ' '.join('%s = %s;' % (n, e) for n, e in self.sets) or ';')
        body = []
        used = {p.name for p in self.params}
        loc = [n for n in sc.names if n not in used]
        r.shuffle(loc)
        # local variables of their own
        for n in loc[:r.randint(0, 6)]:
            ty = r.choice(['float', 'color', 'point'])
            v = rv(r, ty)
            used.add(n)
            body.append('%s %s %s = %s;' % (r.choice(['uniform', 'varying']), ty, n, sl(ty, v)))
            self.q.append((show(ty, n), (lambda w: lambda o: w)(want(ty, v)), 'local'))
        for p in self.params:
            if p.arr:
                i = r.randrange(p.arr)
                self.q.append((show(p.ty, '%s[%d]' % (p.name, i)), (lambda p, i: lambda o: o.param(p, i))(p, i), 'array-parameter'))
            else:
                self.q.append((show(p.ty, p.name), (lambda p: lambda o: o.param(p, 0))(p), 'parameter'))
        k = 0
        while len(self.q) < NOUT:
            k += 1
            c = r.random()
            if c < .3:
                n = r.choice(sc.names)
                opt = r.random() < .4
                ty, arr = utype(r, opt)
                d = [rv(r, ty) for _ in range(arr or 1)]
                i = r.randrange(arr or 1)
                if arr:
                    decl = 'uniform %s q_%d[%d];' % (ty, k, arr) + ''.join(' q_%d[%d] = %s;' % (k, j, sl(ty, d[j])) for j in range(arr))
                else:
                    decl = 'uniform %s q_%d = %s;' % (ty, k, sl(ty, d[0]))
                body.append('%s uniform float q_r%d = %s("user:%s", q_%d);' % (decl, k, 'option' if opt else 'attribute', n, k))
                self.q.append((show(ty, ('q_%d[%d]' % (k, i)) if arr else 'q_%d' % k) + ' + color(0,0,q_r%d*10)' % k,
                               (lambda *a: lambda o: o.user(*a))(n, (ty, arr), d, opt, i), 'option' if opt else 'attribute'))
            elif c < .6:
                ty = r.choice(list(XF))
                v = rv(r, ty)
                A, B = r.choice(sc.spaces()), r.choice(sc.spaces())
                m = r.randrange(3)
                if m == 0:
                    e = '%s("%s","%s",%s)' % (FN[ty], A, B, sl(ty, v))
                elif m == 1:
                    A, e = 'current', '%s("%s",%s)' % (FN[ty], B, sl(ty, v))
                else:
                    B, e = 'current', sl(ty, v).replace('(', ' "%s" (' % A, 1)
                body.append('varying %s q_%d = %s;' % (ty, k, e))
                self.q.append((show(ty, 'q_%d' % k), (lambda ty, v, A, B: lambda o: o.space(ty, v, A, B))(ty, v, A, B), 'transform'))
            elif c < .75:
                f = r.choice(['displacement', 'atmosphere'])
                n = r.choice(sc.names)
                ty = r.choice(['float', 'color', 'string'])
                d = rv(r, ty)
                cl = 'uniform' if ty == 'string' else 'varying'
                body.append('%s %s q_%d = %s; uniform float q_r%d = %s("%s", q_%d);' % (cl, ty, k, sl(ty, d), k, f, n, k))
                self.q.append((show(ty, 'q_%d' % k) + ' + color(0,0,q_r%d*10)' % k, (lambda f, n, ty, d: lambda o: o.message(f, n, ty, d))(f, n, ty, d), f))
            elif c < .8:
                f = r.choice(['ShadingRate', 'Sides'])
                body.append('uniform float q_%d = -1; uniform float q_r%d = attribute("%s", q_%d);' % (k, k, f, k))
                self.q.append(('color(q_%d,q_r%d,0)' % (k, k), (lambda f: lambda o: (o.a[f], 1, 0))(f), 'attribute'))
            elif c < .85:
                self.q.append(('Cs', lambda o: o.cs(), 'Cs'))
            elif c < .9:
                b = r.choice(['screen', 'NDC', 'raster'])
                body.append('varying point q_%d = transform("%s", P);' % (k, b))
                self.q.append(('color(xcomp(q_%d),ycomp(q_%d),0)' % (k, k), (lambda b: lambda o: o.raster(b))(b), b))
            elif c < .95:
                self.q.append(('color(xcomp(P),ycomp(P),zcomp(P))', lambda o: tuple(o.P()), 'P'))
            else:
                f = r.choice(['surface', 'displacement', 'atmosphere', ''])
                arg = '"%s"' % f if f else ''
                cand = [x for x in sc.allshaders]
                e = ' + '.join('q_is(shadername(%s),"%s")*%d' % (arg, x, i + 1) for i, x in enumerate(cand))
                self.q.append(('color(%s,0,0)' % e, (lambda f, cand: lambda o: o.shadername(f, cand))(f, cand), 'shadername'))
        r.shuffle(self.q)
        self.q = self.q[:NOUT]
        return HELP + 'surface %s(%s %s output varying float iu = 0; output varying float iv = 0;)\n{\n\tiu = u; iv = v;\n\t%s\n\t%s\n\tCi = 1; Oi = 1;\n}\n' % (
            self.name, head, ' '.join('output varying color o%d = 0;' % i for i in range(NOUT)), '\n\t'.join(body),
            '\n\t'.join('o%d = %s;' % (i, q[0]) for i, q in enumerate(self.q)))


class Obj:
    """the state at a primitive"""
    def __init__(self, sc, a, ctm, cell, z):
        self.sc, self.ctm, self.cell, self.z = sc, ctm.copy(), cell, z
        self.a = {k: (dict(v) if isinstance(v, dict) else v) for k, v in a.items()}
        self.cs_ = dict(sc.cs)
        self.prim = {}

    def corners(self):
        i, j = self.cell
        e = 2 / NC
        x0, y0 = -1 + i * e, 1 - (j + 1) * e
        d = .02 * e
        c = [(x0 + d, y0 + d), (x0 + e - d, y0 + d), (x0 + d, y0 + e - d), (x0 + e - d, y0 + e - d)]
        k = self.z if self.sc.persp else 1
        return [np.array([x * k, y * k, self.z]) for x, y in c]

    def lerp(self, vals):
        u, v = self.u, self.v
        w = [(1 - u) * (1 - v), u * (1 - v), (1 - u) * v, u * v]
        return sum(a * np.asarray(b, float) for a, b in zip(w, vals))

    def tocam(self):
        return self.ctm @ self.sc.cam

    def P(self):
        return self.lerp(self.corners())

    def raster(self, b):
        p = self.P()
        x, y = (p[0] / p[2], p[1] / p[2]) if self.sc.persp else (p[0], p[1])
        if b == 'screen':
            return x, y, 0
        x, y = (x + 1) / 2, (1 - y) / 2
        return (x, y, 0) if b == 'NDC' else (x * N, y * N, 0)

    def mat(self, sp):
        """from the space to the world"""
        if sp == 'world':
            return np.eye(4)
        if sp in ('camera', 'current'):
            return np.linalg.inv(self.sc.cam)
        if sp == 'object':
            return self.ctm
        if sp == 'shader':
            return self.a['surface'][2]
        return self.cs_final[sp]

    def space(self, ty, v, A, B):
        return tuple(XF[ty](self.mat(A) @ np.linalg.inv(self.mat(B)), v))

    def param(self, p, i):
        if p.name in self.prim and not p.arr:
            vals = self.prim[p.name]
            v = vals[0] if len(vals) == 1 else list(self.lerp(vals))
            return want(p.ty, tuple(XF[p.ty](self.tocam(), v)) if p.ty in XF else v)
        sh, args, m = self.a['surface']
        if p.name in args:
            v = args[p.name][i]
            return want(p.ty, tuple(XF[p.ty](m @ self.sc.cam, v)) if p.ty in XF else v)
        v = p.dflt[i]
        if p.space and p.space not in ('camera', 'current'):
            t = (m if p.space == 'shader' else np.eye(4)) @ self.sc.cam
            return tuple(XF[p.ty](t, v))
        return want(p.ty, v)

    def user(self, n, ty, d, opt, i):
        t = self.sc.opts if opt else self.a['user']
        if n in t and t[n][0] == ty:
            w = want(ty[0], t[n][1][i])
            return w[0], w[1], w[2] + 10
        return want(ty[0], d[i])

    def message(self, f, n, ty, d):
        sh = self.a[f]
        if sh is None:
            return want(ty, d)
        sh, args, m = sh
        for p in sh.params:
            if p.name == n and p.ty == ty and not p.arr:
                w = want(ty, args[n][0] if n in args else p.dflt[0])
                return w[0], w[1], w[2] + 10
        for nn, t, v in sh.outs:
            if nn == n and t == ty:
                if f == 'atmosphere':
                    return None                  # not run yet
                w = want(t, sh.final(nn, self))
                return w[0], w[1], w[2] + 10
        return want(ty, d)

    def cs(self):
        if 'Cs' in self.prim:
            v = self.prim['Cs']
            return tuple(v[0] if len(v) == 1 else self.lerp(v))
        return tuple(self.a['color'])

    def shadername(self, f, cand):
        s = self.a['surface' if f == '' else f]
        n = s[0].name if s else ''
        return (float(cand.index(n) + 1) if n in cand else 0., 0, 0)


class Scene:
    def __init__(self, r, idx):
        self.r = r
        self.persp = r.random() < .5
        self.names = pool(r, r.choice([6, 12, 20]))
        self.cs, self.opts = {}, {}
        self.csn = r.sample(self.names, 3)
        pre = 'x%d_' % idx
        self.allshaders = [pre + n for n in self.names[:5]]
        self.surf = [Shader(r, 'surface', n, r.sample(self.names, r.randint(0, 5))) for n in self.allshaders[:2]]
        self.disp = [Shader(r, 'displacement', n, r.sample(self.names, r.randint(0, 4))) for n in self.allshaders[2:4]]
        self.atmo = [Shader(r, 'volume', n, r.sample(self.names, r.randint(0, 4))) for n in self.allshaders[4:5]]
        for sh in self.disp + self.atmo:
            rest = [n for n in self.names if n not in {p.name for p in sh.params}]
            sh.outs, sh.sets, sh.vals = [], [], {}
            for n in r.sample(rest, min(len(rest), r.randint(0, 3))):
                ty = r.choice(['float', 'color'])
                sh.outs.append((n, ty, rv(r, ty)))
                v = rv(r, ty)
                sh.sets.append((n, sl(ty, v)))
                sh.vals[n] = v
            sh.final = (lambda sh: lambda n, o: sh.vals[n])(sh)
        self.texts = {s.name: s.text(r, self) for s in self.surf + self.disp + self.atmo}
        self.build()

    def spaces(self):
        return ['object', 'shader', 'world', 'camera', 'current'] + self.csn

    def plist(self, sh, n):
        """values for parameters of a shader -> (RIB text, dict)"""
        r = self.r
        txt, d = [], {}
        for p in sh.params:
            if r.random() < .5:
                vals = [rv(r, p.ty) for _ in range(p.arr or 1)]
                dcl = 'uniform %s%s' % (p.ty, '[%d]' % p.arr if p.arr else '')
                if r.random() < .3:
                    n.append('Declare "%s" "%s"' % (p.name, dcl))
                    dcl = p.name
                else:
                    dcl += ' ' + p.name
                txt.append('"%s" [%s]' % (dcl, ' '.join(ribv(p.ty, v) for v in vals)))
                d[p.name] = vals
        return ' '.join(txt), d

    def build(self):
        r = self.r
        L = ['Format %d %d 1' % (N, N), 'PixelSamples 1 1', 'PixelFilter "box" 1 1', 'Hider "hidden" "int jitter" [0]', 'ScreenWindow -1 1 -1 1',
             'Option "limits" "integer gridsize" [%d]' % r.choice([9, 64, 256]), 'Option "limits" "integer[2] bucketsize" [%d %d]' % (r.choice([3, 5, 16]), 16),
             'Projection "%s"' % ('perspective" "fov" [90]' if self.persp else 'orthographic"')]
        if not self.persp:
            L[-1] = 'Projection "orthographic"'
        else:
            L[-1] = 'Projection "perspective" "fov" [90]'
        L.append('Display "ci.log" "rec" "rgb" "float[4] quantize" [0 0 0 0]')
        for i in range(NOUT):
            L.append('Display "+o%d.log" "rec" "varying color o%d" "float[4] quantize" [0 0 0 0]' % (i, i))
        for c in 'uv':
            L.append('Display "+i%s.log" "rec" "varying float i%s" "float[4] quantize" [0 0 0 0]' % (c, c))
        for n in self.names:
            while r.random() < .4:
                ty, v, decl = uvalue(r, True)
                L.append('Option "user" "%s %s" [%s]' % (decl, n, ' '.join(ribv(ty[0], x) for x in v)))
                self.opts[n] = (ty, v)
        self.cam = np.eye(4)
        for _ in range(r.randint(0, 3)):
            t, m = M.trs(r)
            L.append(t)
            self.cam = m @ self.cam
        L.append('WorldBegin')
        a = {'user': {}, 'surface': None, 'displacement': None, 'atmosphere': None, 'color': [1, 1, 1], 'ShadingRate': 1., 'Sides': 2}
        ctm = np.eye(4)
        stack = []
        self.objs = []
        cells = [(i, j) for i in range(NC) for j in range(NC)]
        r.shuffle(cells)
        for n in self.csn:
            t, m = M.trs(r)
            L += ['TransformBegin', t, 'CoordinateSystem "%s"' % n, 'TransformEnd']
            self.cs[n] = m @ ctm

        def surface():
            sh = r.choice(self.surf)
            p, d = self.plist(sh, L)
            L.append('Surface "%s" %s' % (sh.name, p))
            a['surface'] = (sh, d, ctm.copy())
        surface()
        while cells:
            c = r.random()
            if c < .12:
                t, m = M.trs(r)
                L.append(t)
                ctm = m @ ctm
                if np.linalg.cond(ctm[:3, :3]) > 12 or np.abs(ctm).max() > 20 or abs(np.linalg.det(ctm[:3, :3])) < .05:
                    L.append('Identity')
                    ctm = np.eye(4)
            elif c < .3:
                n = r.choice(self.names)
                ty, v, decl = uvalue(r, False)
                L.append('Attribute "user" "%s %s" [%s]' % (decl, n, ' '.join(ribv(ty[0], x) for x in v)))
                a['user'] = dict(a['user'])
                a['user'][n] = (ty, v)
            elif c < .38:
                surface()
            elif c < .43:
                k = r.choice(['displacement', 'atmosphere'])
                sh = r.choice(self.disp if k == 'displacement' else self.atmo)
                p, d = self.plist(sh, L)
                L.append('%s "%s" %s' % (k.capitalize(), sh.name, p))
                a[k] = (sh, d, ctm.copy())
            elif c < .48:
                v = [round(r.random(), 2) for _ in range(3)]
                L.append('Color [%s]' % ' '.join(map(num, v)))
                a['color'] = v
            elif c < .52:
                a['ShadingRate'] = r.choice([.5, 1., 2., 4.])
                L.append('ShadingRate %g' % a['ShadingRate'])
            elif c < .62:
                k = r.choice('AAT')
                L.append('AttributeBegin' if k == 'A' else 'TransformBegin')
                stack.append((k, {x: (dict(y) if isinstance(y, dict) else y) for x, y in a.items()}, ctm.copy()))
            elif c < .74:
                if stack:
                    k, b, m = stack.pop()
                    L.append('AttributeEnd' if k == 'A' else 'TransformEnd')
                    ctm = m
                    if k == 'A':
                        a = b
            else:
                o = Obj(self, a, ctm, cells.pop(), round(r.uniform(2, 4), 2))
                inv = np.linalg.inv(o.tocam())
                pts = [pt(inv, p) for p in o.corners()]
                prim = []
                for p in a['surface'][0].params:
                    if p.arr or r.random() < .6:
                        continue
                    if any(a[k] and any(q.name == p.name and not q.arr for q in a[k][0].params) for k in ('displacement', 'atmosphere')):
                        continue        # would set these shaders' parameters as well
                    cls = r.choice(['constant', 'uniform', 'varying', 'vertex']) if p.cls == 'varying' else r.choice(['constant', 'uniform'])
                    if p.ty == 'string':
                        continue
                    vals = [rv(r, p.ty) for _ in range(4 if cls in ('varying', 'vertex') else 1)]
                    prim.append('"%s %s %s" [%s]' % (cls, p.ty, p.name, ' '.join(ribv(p.ty, v) for v in vals)))
                    o.prim[p.name] = vals
                if r.random() < .3:
                    vals = [[round(r.random(), 2) for _ in range(3)] for _ in range(4)]
                    prim.append('"Cs" [%s]' % ' '.join(ribv('color', v) for v in vals))
                    o.prim['Cs'] = vals
                L.append('Patch "bilinear" "P" [%s] %s' % (' '.join('%.9g' % x for p in pts for x in p), ' '.join(prim)))
                self.objs.append(o)
        for k, b, m in reversed(stack):
            L.append('AttributeEnd' if k == 'A' else 'TransformEnd')
        L.append('WorldEnd')
        for o in self.objs:
            o.cs_final = self.cs
        self.rib = '\n'.join(L) + '\n'


def judge(chk, sc, L, seen):
    V = {}
    for n in ['o%d' % i for i in range(NOUT)] + ['iu', 'iv']:
        D = L.get(n)
        if not isinstance(D, list) or len(D) != 1:
            chk.violation('no-output', 'output %s not delivered' % n, sc.rib + '\n'.join(sc.texts.values()))
            return 0
        ch, cnt = D[0].assemble(N, N)
        V[n] = np.stack([ch[k] for k, _ in D[0].fmt], -1)
    judged = 0
    for o in sc.objs:
        sh = o.a['surface'][0]
        i, j = o.cell
        y, x = j * PX + PX // 2, i * PX + PX // 2
        o.u, o.v = float(V['iu'][y, x, 0]), float(V['iv'][y, x, 0])
        for k, (text, f, kind) in enumerate(sh.q):
            w = f(o)
            if w is None:
                continue
            got = V['o%d' % k][y, x]
            judged += 1
            seen[kind] = seen.get(kind, 0) + 1
            if not all(abs(a - b) <= 2e-3 * (1 + abs(b)) for a, b in zip(got, w)):
                chk.violation('value:' + kind, 'object in cell %s (surface %s): %s is %s, should be %s' % (o.cell, sh.name, text, [round(float(z), 4) for z in got], [round(float(z), 4) for z in w]),
                              sc.rib + '\n'.join(sc.texts.values()))
                break
    return judged


def main():
    chk = vlib.Check('C12', rule='A case is one scene with a random history of attributes, options, transformations, coordinate systems, shaders with parameters and primitives with variables, all drawn from '
                     'a pool of easily confused names; every value the shaders read at every primitive is compared with a model of the interface. Distinct by scene text; non-trivial when at least 100 values were judged.')
    vlib.build(['verif_render'])
    env = render.Env(chk)
    r = chk.rng
    n = chk.n(250, 4000)
    seen, done = {}, 0
    while done < n:
        k = min(100, n - done)
        S = [Scene(r, done + i) for i in range(k)]
        T = {}
        for s in S:
            T.update(s.texts)
        res = env.compile(T)
        for s, o in zip(S, vlib.pmap(lambda s: env.render(s.rib) if all(res[t][1] for t in s.texts) else None, S)):
            if o is None:
                continue
            pay = s.rib + '\n'.join(s.texts.values())
            if not chk.sanitize(o[0], 'rendering', pay):
                continue
            msg = env.messages(o[0])
            if msg:
                chk.violation('message', 'unexpected message: %s' % msg[:2], pay)
                continue
            j = judge(chk, s, o[1], seen)
            chk.count('values_judged', j)
            chk.count('objects', len(s.objs))
            chk.eval(s.rib.encode() if j > 100 else None)
        done += k
    chk.sample({'scene': S[0].rib[:3000], 'judged_per_kind': seen})
    env.close()
    return chk.finish()
