"""Random primitives with reference geometry."""
import math
import numpy as np
import refgeo as G
from refgeo import fl, fls


def sweep(r):
    return r.choice([360, 360, r.uniform(30, 350), -r.uniform(30, 360)])


def quadric(r, k=None):
    k = r.randrange(7) if k is None else k
    u = r.uniform
    if k == 0:
        R = u(.4, 1.)
        if r.random() < .5:
            return G.sphere(R, -R, R, sweep(r))
        a, b = sorted([u(-R, R), u(-R, R)])
        return G.sphere(R, a, b + .1 * R if b + .1 * R < R else b, sweep(r))
    if k == 1:
        return G.cone(u(.4, 1.2) * r.choice([1, 1, -1]), u(.3, 1), sweep(r))
    if k == 2:
        a = u(-.9, .3)
        return G.cylinder(u(.2, .9), a, a + u(.2, 1), sweep(r))
    if k == 3:
        return G.hyperboloid([u(.1, .9), u(-.6, .6), u(-.9, 0)], [u(.1, .9), u(-.6, .6), u(.1, .9)], sweep(r))
    if k == 4:
        b = u(.4, 1)
        return G.paraboloid(u(.3, 1), b * r.choice([0, 0, u(.1, .6)]), b, sweep(r))
    if k == 5:
        return G.disk(u(-.5, .5), u(.3, 1.1), sweep(r))
    p0, p1 = r.choice([(0, 360), (0, 360), (u(0, 90), u(120, 350))])
    a = u(.1, .35)
    return G.torus(u(a + .05, .9), a, p0, p1, sweep(r))


def net(r, nu, nv, amp=.45):
    """a height field of control points over the unit square, jiggled"""
    P = np.zeros((nv, nu, 3))
    for j in range(nv):
        for i in range(nu):
            P[j, i] = (-.9 + 1.8 * i / max(1, nu - 1), -.9 + 1.8 * j / max(1, nv - 1), r.uniform(-amp, amp))
    P[..., :2] += np.array([r.uniform(-.1, .1) for _ in range(nu * nv * 2)]).reshape(nv, nu, 2)
    return P


def tube(r, nu, nv, wu, wv, R=.7):
    """control points of a tube, or a torus-like net, for periodic meshes"""
    P = np.zeros((nv, nu, 3))
    for j in range(nv):
        for i in range(nu):
            if wu and wv:
                a, b = 2 * math.pi * i / nu, 2 * math.pi * j / nv
                q = R + .3 * math.cos(b)
                P[j, i] = (q * math.cos(a), q * math.sin(a), .3 * math.sin(b))
            elif wu:
                a = 2 * math.pi * i / nu
                P[j, i] = (R * math.cos(a), R * math.sin(a), -.9 + 1.8 * j / (nv - 1))
            else:
                a = 2 * math.pi * j / nv
                P[j, i] = (R * math.cos(a), R * math.sin(a), -.9 + 1.8 * i / (nu - 1))
    return P * np.array([r.uniform(.8, 1.1) for _ in range(nu * nv)]).reshape(nv, nu, 1)


def patch(r):
    k = r.randrange(5)
    if k == 0:
        return G.patch(net(r, 2, 2), 'bilinear')
    if k == 1:
        return G.patch(net(r, 4, 4), 'bicubic')
    if k == 2:
        ub, vb = r.choice(['bezier', 'b-spline', 'catmull-rom']), r.choice(['bezier', 'b-spline', 'catmull-rom'])
        return G.patch(net(r, 4, 4) * 1.6, 'bicubic', ub, vb, G.basis_rib(ub, vb))
    wu, wv = r.choice([(0, 0), (0, 0), (1, 0), (0, 1), (1, 1)])
    if k == 3:
        nu, nv = r.randint(2, 4) + (2 if wu else 0), r.randint(2, 4) + (2 if wv else 0)
        P = tube(r, nu, nv, wu, wv) if wu or wv else net(r, nu, nv)
        return G.patchmesh(P, nu, nv, 'bilinear', wu, wv)
    ub, vb = r.choice(['bezier', 'bezier', 'b-spline', 'catmull-rom']), r.choice(['bezier', 'bezier', 'b-spline', 'catmull-rom'])

    def cnt(b, w):
        s = G.BASES[b][1]
        if w:
            return s * r.randint(2, 3) if s > 1 else r.randint(4, 7)
        return 4 + s * r.randint(0, 2)
    nu, nv = cnt(ub, wu), cnt(vb, wv)
    P = tube(r, nu, nv, wu, wv) if wu or wv else net(r, nu, nv) * (1.3 if 'b-spline' in (ub, vb) else 1)
    return G.patchmesh(P, nu, nv, 'bicubic', wu, wv, ub, vb)


def knots(r, n, o):
    k = [0.] * o
    for _ in range(n - o):
        k.append(k[-1] + r.choice([0, 1, 1, 2]) if k.count(k[-1]) < o - 1 else k[-1] + 1)
    e = k[-1] + 1
    return k + [e] * o


def nupatch(r, sub=False):
    uo, vo = r.randint(2, 4), r.randint(2, 4)
    nu, nv = uo + r.randint(0, 3), vo + r.randint(0, 3)
    uk, vk = knots(r, nu, uo), knots(r, nv, vo)
    if not sub:
        umin, umax, vmin, vmax = uk[uo - 1], uk[nu], vk[vo - 1], vk[nv]
    else:
        a, b = uk[uo - 1], uk[nu]
        umin, umax = a + (b - a) * r.uniform(0, .3), b - (b - a) * r.uniform(0, .3)
        a, b = vk[vo - 1], vk[nv]
        vmin, vmax = a + (b - a) * r.uniform(0, .3), b - (b - a) * r.uniform(0, .3)
    w = np.array([r.choice([1, 1, r.uniform(.5, 2)]) for _ in range(nu * nv)]).reshape(nv, nu, 1)
    Pw = np.concatenate([net(r, nu, nv) * w, w], -1)
    p = G.nupatch(nu, uo, uk, umin, umax, nv, vo, vk, vmin, vmax, Pw)
    if sub:
        p.kind = 'nupatch-range'
    return p


def star(r, n, rad=(.35, 1.), cx=0., cy=0., sc=1.):
    a = [2 * math.pi * (i + r.uniform(-.3, .3)) / n for i in range(n)]
    q = [r.uniform(*rad) for _ in a]
    return [(cx + sc * d * math.cos(t), cy + sc * d * math.sin(t)) for d, t in zip(q, a)]


def convex(r, n):
    a = [2 * math.pi * (i + r.uniform(-.3, .3)) / n for i in range(n)]
    return [(.9 * math.cos(t), .7 * math.sin(t)) for t in a]


def plane(r):
    """an affine map of the plane into space"""
    c, d, e = r.uniform(-.4, .4), r.uniform(-.4, .4), r.uniform(-.2, .2)
    return lambda p: np.array([p[0], p[1], c * p[0] + d * p[1] + e])


def polygon(r):
    k = r.randrange(4)
    if k == 0:
        n = r.randint(3, 8)
        p2 = convex(r, n)
        if r.random() < .5:
            p2.reverse()
        f = plane(r)
        P = [f(p) for p in p2]
        return G.Mesh('Polygon "P" [%s]' % fls(P), [[P[a], P[b], P[c]] for a, b, c in G.triangulate(p2)], [0] * (n - 2), kind='polygon')
    if k == 1:
        return generalpolygon(r)
    if k == 2:
        return pointspolygons(r)
    return pointsgeneral(r)


class Holed:
    """planar polygon with holes: the plane rectangle is sampled and cut by the even-odd rule"""
    def __init__(self, rib, loops, f, face=0):
        self.rib, self.loops, self.f, self.face, self.kind = rib, loops, f, face, 'generalpolygon'

    def tris(self):
        T = []
        out = G.triangulate(self.loops[0])
        P = self.loops[0]
        # cut: recursive subdivision is avoided, holes become part of the outline through bridges
        poly = list(P)
        area = lambda q: sum(q[i][0] * q[(i + 1) % len(q)][1] - q[(i + 1) % len(q)][0] * q[i][1] for i in range(len(q)))
        if area(poly) < 0:
            poly.reverse()
        for h in self.loops[1:]:
            h = list(h)
            if area(h) > 0:
                h.reverse()
            # bridge from the hole's rightmost vertex to a visible outline vertex
            i = max(range(len(h)), key=lambda k: h[k][0])
            best = None
            for j, q in enumerate(poly):
                ok = True
                segs = [(poly[a], poly[(a + 1) % len(poly)]) for a in range(len(poly))] + [(h[a], h[(a + 1) % len(h)]) for a in range(len(h))]
                for o in self.loops[1:]:
                    segs += [(o[a], o[(a + 1) % len(o)]) for a in range(len(o))]
                for a, b in segs:
                    if a in (q, h[i]) or b in (q, h[i]):
                        continue
                    c = lambda x, y, z: (y[0] - x[0]) * (z[1] - x[1]) - (y[1] - x[1]) * (z[0] - x[0])
                    if c(a, b, q) * c(a, b, h[i]) <= 0 and c(q, h[i], a) * c(q, h[i], b) <= 0:
                        ok = False
                        break
                if ok:
                    dd = (q[0] - h[i][0]) ** 2 + (q[1] - h[i][1]) ** 2
                    if best is None or dd < best[0]:
                        best = (dd, j)
            j = best[1]
            poly = poly[:j + 1] + h[i:] + h[:i + 1] + poly[j:]
        for a, b, c in G.triangulate(poly):
            T.append([self.f(poly[a]), self.f(poly[b]), self.f(poly[c])])
        n = len(T)
        return np.array(T), np.full(n, self.face), np.zeros((n, 3, 2))

    def area_ok(self):
        """the bridged triangulation covers outline minus holes"""
        a = lambda q: abs(sum(q[i][0] * q[(i + 1) % len(q)][1] - q[(i + 1) % len(q)][0] * q[i][1] for i in range(len(q)))) / 2
        want = a(self.loops[0]) - sum(a(h) for h in self.loops[1:])
        t, _, _ = self.tris()
        e, g = t[:, 1] - t[:, 0], t[:, 2] - t[:, 0]
        got = np.abs(e[:, 0] * g[:, 1] - e[:, 1] * g[:, 0]).sum() / 2
        return abs(got - want) < 1e-6


def loops(r):
    while True:
        n = r.randint(3, 8)
        L = [star(r, n, (.6, 1.))]
        for k in range(r.choice([0, 1, 1, 2])):
            c = (0, 0) if k == 0 else None
            if k == 0:
                L.append(star(r, r.randint(3, 5), (.1, .25), -.12 if r.random() < .5 else .0))
            else:
                L.append(star(r, 3, (.04, .08), .35, .0))
        if len(L) > 2 and max(p[0] for p in L[1]) > .25:
            continue
        for l in L:
            if r.random() < .5:
                l.reverse()
        try:
            h = Holed('', L, lambda p: np.array([p[0], p[1], 0.]))
            # holes must lie inside the outline
            if inside(L) and h.area_ok():
                return L
        except TypeError:      # no bridge found
            pass


def inside(L):
    def pin(p, q):
        c = False
        for i in range(len(q)):
            (x1, y1), (x2, y2) = q[i], q[i - 1]
            if (y1 > p[1]) != (y2 > p[1]) and p[0] < (x2 - x1) * (p[1] - y1) / (y2 - y1) + x1:
                c = not c
        return c
    o = L[0]
    for h in L[1:]:
        for i in range(len(h)):
            for t in np.linspace(0, 1, 8):
                p = (h[i][0] * (1 - t) + h[i - 1][0] * t, h[i][1] * (1 - t) + h[i - 1][1] * t)
                # clear of the outline by a margin
                for dx, dy in ((0, 0), (.05, 0), (-.05, 0), (0, .05), (0, -.05)):
                    if not pin((p[0] + dx, p[1] + dy), o):
                        return False
    return True


def generalpolygon(r):
    L = loops(r)
    f = plane(r)
    P = [f(p) for l in L for p in l]
    return Holed('GeneralPolygon [%s] "P" [%s]' % (' '.join(str(len(l)) for l in L), fls(P)), L, f)


def soup(r):
    """a grid mesh of triangles and quads with a permuted vertex list"""
    n, m = r.randint(1, 3), r.randint(1, 3)
    V = [np.array([-.9 + 1.8 * i / n, -.9 + 1.8 * j / m, 0.]) for j in range(m + 1) for i in range(n + 1)]
    pl = [r.uniform(-.4, .4) for _ in range(2)]
    for v in V:
        v[2] = pl[0] * v[0] + pl[1] * v[1]
    faces = []
    for j in range(m):
        for i in range(n):
            a = j * (n + 1) + i
            q = [a, a + 1, a + n + 2, a + n + 1]
            if r.random() < .25:
                continue
            if r.random() < .5:
                faces.append(q)
            else:
                faces += [q[:3], [q[0], q[2], q[3]]]
    if not faces:
        faces = [[0, 1, n + 2, n + 1]]
    tri_only = all(len(f) == 3 for f in faces)
    if tri_only or r.random() < .4:
        faces = [t for f in faces for t in ([f] if len(f) == 3 else [f[:3], [f[0], f[2], f[3]]])]
        for v in V:
            v[2] += r.uniform(-.3, .3)
    perm = list(range(len(V)))
    r.shuffle(perm)
    inv = {p: i for i, p in enumerate(perm)}
    V2 = [V[p] for p in perm]
    faces = [[inv[i] for i in f] for f in faces]
    faces = [f[k:] + f[:k] for f in faces for k in [r.randrange(len(f))]]
    return V2, faces


def pointspolygons(r):
    V, F = soup(r)
    rib = 'PointsPolygons [%s] [%s] "P" [%s]' % (' '.join(str(len(f)) for f in F), ' '.join(str(i) for f in F for i in f), fls(V))
    T, K = [], []
    for k, f in enumerate(F):
        for i in range(1, len(f) - 1):
            T.append([V[f[0]], V[f[i]], V[f[i + 1]]])
            K.append(k)
    m = G.Mesh(rib, T, K, kind='pointspolygons')
    m.V, m.faces = V, F
    return m


class Multi:
    def __init__(self, rib, parts, kind):
        self.rib, self.parts, self.kind = rib, parts, kind

    def tris(self):
        r = [p.tris() for p in self.parts]
        return tuple(np.concatenate([x[i] for x in r]) for i in range(3))


def pointsgeneral(r):
    parts, nl, nv, idx, V = [], [], [], [], []
    for k in range(r.randint(1, 3)):
        L = loops(r)
        sc, dx, dy, dz = .5, r.uniform(-.5, .5), r.uniform(-.5, .5), k * .25 - .2
        L = [[(p[0] * sc + dx, p[1] * sc + dy) for p in l] for l in L]
        c, d = r.uniform(-.2, .2), r.uniform(-.2, .2)
        f = (lambda c, d, dz: lambda p: np.array([p[0], p[1], c * p[0] + d * p[1] + dz]))(c, d, dz)
        nl.append(len(L))
        nv += [len(l) for l in L]
        for l in L:
            for p in l:
                idx.append(len(V))
                V.append(f(p))
        parts.append(Holed('', L, f, k))
    perm = list(range(len(V)))
    r.shuffle(perm)
    inv = {p: i for i, p in enumerate(perm)}
    rib = 'PointsGeneralPolygons [%s] [%s] [%s] "P" [%s]' % (' '.join(map(str, nl)), ' '.join(map(str, nv)), ' '.join(str(inv[i]) for i in idx),
                                                           fls([V[p] for p in perm]))
    return Multi(rib, parts, 'pointsgeneralpolygons')


# ---------------------------------------------------------------- subdivision
def catmull_clark(V, F, creases, corners, holes, levels, interp):
    """creases: {(a,b): sharpness}, corners: {v: sharpness} -> refined quads with face of origin"""
    V = [np.array(v, float) for v in V]
    face0 = list(range(len(F)))
    cr = {tuple(sorted(k)): s for k, s in creases.items()}
    co = dict(corners)
    for lev in range(levels):
        edges = {}
        for fi, f in enumerate(F):
            for i in range(len(f)):
                edges.setdefault(tuple(sorted((f[i], f[(i + 1) % len(f)]))), []).append(fi)
        vf = {}
        for fi, f in enumerate(F):
            for v in f:
                vf.setdefault(v, []).append(fi)
        ve = {}
        for e in edges:
            for v in e:
                ve.setdefault(v, []).append(e)
        fp = [sum(V[v] for v in f) / len(f) for f in F]

        def sharp(e):
            return 1e9 if len(edges[e]) == 1 else cr.get(e, 0)
        ep = {}
        for e, fs in edges.items():
            mid = (V[e[0]] + V[e[1]]) / 2
            if len(fs) == 1:
                ep[e] = mid
                continue
            sm = (V[e[0]] + V[e[1]] + fp[fs[0]] + fp[fs[1]]) / 4
            s = min(max(sharp(e), 0), 1)
            ep[e] = mid * s + sm * (1 - s)
        nv = []
        for v in range(len(V)):
            if v not in vf:
                nv.append(V[v])
                continue
            es = ve[v]
            n = len(es)
            sh = [e for e in es if sharp(e) > 0]
            bnd = [e for e in es if len(edges[e]) == 1]
            smooth = None
            if not bnd:
                Q = sum(fp[f] for f in vf[v]) / len(vf[v])
                R = sum((V[e[0]] + V[e[1]]) / 2 for e in es) / n
                smooth = (Q + 2 * R + (n - 3) * V[v]) / n
            csharp = co.get(v, 0)
            if interp == 1 and bnd and len(vf[v]) == 1:
                csharp = 1e9
            if len(sh) > 2:
                csharp = max(csharp, 1e9 if False else 0)
            if csharp > 0 or len(sh) > 2:
                nv.append(V[v])
                continue
            if len(sh) == 2:
                o = [e[0] if e[1] == v else e[1] for e in sh]
                crp = V[v] * .75 + (V[o[0]] + V[o[1]]) / 8
                if smooth is None:
                    nv.append(crp)
                else:
                    s = min(1, sum(min(sharp(e), 1e6) for e in sh) / 2)
                    nv.append(crp * s + smooth * (1 - s))
            else:
                nv.append(smooth)
        base = len(nv)
        fi0 = base
        nv += fp
        ei = {}
        for e in edges:
            ei[e] = len(nv)
            nv.append(ep[e])
        NF, NO, ncr = [], [], {}
        for fi, f in enumerate(F):
            for i in range(len(f)):
                a = tuple(sorted((f[i], f[(i + 1) % len(f)])))
                b = tuple(sorted((f[i - 1], f[i])))
                NF.append([f[i], ei[a], fi0 + fi, ei[b]])
                NO.append(face0[fi])
        for e, s in cr.items():
            if e in edges and s > 0:
                s2 = s - 1 if s < 1e6 else s
                if s2 > 0:
                    for v in e:
                        ncr[tuple(sorted((v, ei[e])))] = s2
        co = {v: (s - 1 if s < 1e6 else s) for v, s in co.items() if s - 1 > 0}
        V, F, face0, cr = nv, NF, NO, ncr
    return V, F, face0


def closed_mesh(r):
    """cube, prism or tetrahedron-like closed meshes"""
    k = r.randrange(3)
    if k == 0:
        V = [np.array([x, y, z]) * .8 for z in (-1, 1) for y in (-1, 1) for x in (-1, 1)]
        F = [[0, 2, 3, 1], [4, 5, 7, 6], [0, 1, 5, 4], [2, 6, 7, 3], [0, 4, 6, 2], [1, 3, 7, 5]]
    elif k == 1:
        n = r.randint(3, 5)
        V = [np.array([.8 * math.cos(2 * math.pi * i / n), .8 * math.sin(2 * math.pi * i / n), z]) for z in (-.8, .8) for i in range(n)]
        F = [list(range(n))[::-1], [n + i for i in range(n)]] + [[i, (i + 1) % n, n + (i + 1) % n, n + i] for i in range(n)]
    else:
        V = [np.array(p) * .9 for p in ((1., 1, 1), (-1, -1, 1), (-1, 1, -1), (1, -1, -1))]
        F = [[0, 1, 2], [0, 3, 1], [0, 2, 3], [1, 3, 2]]
    V = [v * np.array([r.uniform(.8, 1.1) for _ in range(3)]) for v in V]
    return V, F


def subdiv(r, crease=False):
    # creases are off by default: the limit surface of aqsis ignores them, as its documentation warns
    tags, args, ints, flts = [], [], [], []
    creases, corners, holes = {}, {}, []
    interp = 0
    if r.random() < .55:
        V, F = closed_mesh(r)
    else:
        n, m = r.randint(2, 4), r.randint(2, 4)
        V = list(net(r, n + 1, m + 1).reshape(-1, 3))
        F = [[j * (n + 1) + i, j * (n + 1) + i + 1, (j + 1) * (n + 1) + i + 1, (j + 1) * (n + 1) + i] for j in range(m) for i in range(n)]
        interp = 1
        tags.append('"interpolateboundary"')
        args.append('0 0')
    E = sorted({tuple(sorted((f[i], f[(i + 1) % len(f)]))) for f in F for i in range(len(f))})
    if crease and not interp:
        # the loop around one face: every vertex on it has exactly two sharp edges
        ch = list(r.choice(F))
        ch.append(ch[0])
        tags.append('"crease"')
        args.append('%d 1' % len(ch))
        ints += ch
        flts.append(10)
        for i in range(len(ch) - 1):
            creases[(ch[i], ch[i + 1])] = 1e9
    if r.random() < .3:
        v = r.randrange(len(V))
        tags.append('"corner"')
        args.append('1 1')
        ints.append(v)
        flts.append(10)
        corners[v] = 1e9
    if r.random() < .25 and len(F) > 2:
        h = r.randrange(len(F))
        tags.append('"hole"')
        args.append('1 0')
        ints.append(h)
        holes.append(h)
    rib = 'SubdivisionMesh "catmull-clark" [%s] [%s] ' % (' '.join(str(len(f)) for f in F), ' '.join(str(i) for f in F for i in f))
    rib += '[%s] [%s] [%s] [%s] ' % (' '.join(tags), ' '.join(args), ' '.join(map(str, ints)), ' '.join(map(str, flts)))
    rib += '"P" [%s]' % fls(V)
    return Sub(rib, V, F, creases, corners, holes, interp)


class Sub:
    kind = 'subdivision'

    def __init__(self, rib, V, F, creases, corners, holes, interp):
        self.rib = rib
        v, f, o = catmull_clark(V, F, creases, corners, holes, 4 if len(F) < 8 else 3, interp)
        T, K = [], []
        for q, k in zip(f, o):
            if k in holes:
                continue
            T += [[v[q[0]], v[q[1]], v[q[2]]], [v[q[0]], v[q[2]], v[q[3]]]]
            K += [k, k]
        self.t, self.k = np.array(T), np.array(K)

    def tris(self):
        return self.t, self.k, np.zeros((len(self.t), 3, 2))


def any_prim(r):
    k = r.random()
    if k < .4:
        return quadric(r)
    if k < .6:
        return patch(r)
    if k < .7:
        return nupatch(r)
    if k < .87:
        return polygon(r)
    return subdiv(r)
