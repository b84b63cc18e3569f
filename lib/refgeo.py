"""Independent reference for what a scene looks like: analytic primitives,
transformations, camera and ray casting.  Written from the RenderMan interface
definition, not from the renderer's code."""
import ctypes, math, os, subprocess, threading
import numpy as np
import vlib

_lib = None
_lock = threading.Lock()


def lib():
    global _lib
    with _lock:
        if _lib is None:
            so = os.path.join(vlib.BUILD, 'raycast.so')
            src = os.path.join(vlib.VERIF, 'lib', 'raycast.c')
            if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
                tmp = so + '.%d' % os.getpid()
                subprocess.run(['gcc', '-O3', '-ffast-math', '-fno-finite-math-only', '-shared', '-fPIC', src, '-o', tmp, '-lm'], check=True)
                os.rename(tmp, so)
            _lib = ctypes.CDLL(so)
    return _lib


# ------------------------------------------------------------------ transforms
def ident():
    return np.eye(4)


def translate(x, y, z):
    m = np.eye(4)
    m[3, :3] = (x, y, z)
    return m


def scale(x, y, z):
    return np.diag([x, y, z, 1.])


def rotate(a, x, y, z):
    n = math.sqrt(x * x + y * y + z * z)
    x, y, z = x / n, y / n, z / n
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    k = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    r = np.eye(3) * c + s * k + (1 - c) * np.outer([x, y, z], [x, y, z])
    m = np.eye(4)
    m[:3, :3] = r.T            # row vectors
    return m


def perspective(fov):
    """RiPerspective in a transformation"""
    m = np.eye(4)
    t = math.tan(math.radians(fov / 2))
    m[0, 0] = m[1, 1] = 1 / t
    m[2, 3] = 1
    m[2, 2] = 1
    m[3, 2] = -1
    m[3, 3] = 0
    return m


def skew(a, d1, d2):
    """shear along d2 by the angle, in the plane of d1 and d2: vectors along d1 rotate towards d2"""
    d1, d2 = np.array(d1, float), np.array(d2, float)
    d1 /= np.linalg.norm(d1)
    d2 /= np.linalg.norm(d2)
    th = math.radians(a)
    c = float(np.dot(d1, d2))
    # orthonormal frame of the plane: e = d2, n = component of d1 orthogonal to d2
    n = d1 - c * d2
    s = np.linalg.norm(n)
    n /= s
    # d1 makes the angle acos(c) with d2; afterwards acos(c) - th
    ang = math.acos(max(-1, min(1, c))) - th
    # keep the component along n, change the one along d2
    k = s * (math.cos(ang) / math.sin(ang)) - c
    m = np.eye(4)
    m[:3, :3] += np.outer(n, d2) * (k / s)
    return m


def xform(pts, m):
    p = np.concatenate([pts, np.ones(pts.shape[:-1] + (1,))], -1) @ m
    return p[..., :3] / p[..., 3:4]


# ------------------------------------------------------------------ primitives
class Surf:
    """a parametric surface: pieces[k](u, v) -> points, u and v in [0,1]; each
    piece is tessellated on nu x nv cells"""
    def __init__(self, rib, pieces, nu=24, nv=24, kind=''):
        self.rib, self.pieces, self.nu, self.nv, self.kind = rib, pieces, nu, nv, kind

    def tris(self):
        """-> (points[n,3,3], piece[n], uv[n,3,2])"""
        P, K, UV = [], [], []
        for k, f in enumerate(self.pieces):
            u = np.linspace(0, 1, self.nu + 1)
            v = np.linspace(0, 1, self.nv + 1)
            U, V = np.meshgrid(u, v)
            p = f(U, V)
            q = np.stack([U, V], -1)
            for a in (p, q):
                pass
            a, b, c, d = [(p[i:self.nv + i, j:self.nu + j].reshape(-1, 3), q[i:self.nv + i, j:self.nu + j].reshape(-1, 2))
                          for i, j in ((0, 0), (0, 1), (1, 0), (1, 1))]
            for t in ((a, b, c), (b, d, c)):
                P.append(np.stack([x[0] for x in t], 1))
                UV.append(np.stack([x[1] for x in t], 1))
                K.append(np.full(len(t[0][0]), k))
        return np.concatenate(P), np.concatenate(K), np.concatenate(UV)


class Mesh:
    """flat faces: triangles with per-corner uv and face number"""
    def __init__(self, rib, tris, face, uv=None, kind='mesh'):
        self.rib, self.t, self.f, self.kind = rib, np.array(tris, float), np.array(face), kind
        self.uv = np.zeros(self.t.shape[:2] + (2,)) if uv is None else np.array(uv, float)

    def tris(self):
        return self.t, self.f, self.uv


def fl(x):
    return '%.9g' % x


def fls(a):
    return ' '.join(fl(x) for x in np.asarray(a, float).ravel())


def sphere(r, zmin, zmax, th):
    lo = -math.pi / 2 if zmin <= -r else math.asin(zmin / r)
    hi = math.pi / 2 if zmax >= r else math.asin(zmax / r)

    def f(u, v):
        t, p = np.radians(th) * u, lo + v * (hi - lo)
        return np.stack([r * np.cos(t) * np.cos(p), r * np.sin(t) * np.cos(p), r * np.sin(p)], -1)
    return Surf('Sphere %s %s %s %s' % tuple(map(fl, (r, zmin, zmax, th))), [f], 64, 48, 'sphere')


def cone(h, r, th):
    def f(u, v):
        t = np.radians(th) * u
        return np.stack([r * (1 - v) * np.cos(t), r * (1 - v) * np.sin(t), v * h], -1)
    return Surf('Cone %s %s %s' % tuple(map(fl, (h, r, th))), [f], 80, 8, 'cone')


def cylinder(r, zmin, zmax, th):
    def f(u, v):
        t = np.radians(th) * u
        return np.stack([r * np.cos(t), r * np.sin(t), zmin + v * (zmax - zmin)], -1)
    return Surf('Cylinder %s %s %s %s' % tuple(map(fl, (r, zmin, zmax, th))), [f], 80, 8, 'cylinder')


def hyperboloid(p1, p2, th):
    p1, p2 = np.array(p1, float), np.array(p2, float)

    def f(u, v):
        t = np.radians(th) * u
        p = p1 + v[..., None] * (p2 - p1)
        return np.stack([p[..., 0] * np.cos(t) - p[..., 1] * np.sin(t), p[..., 0] * np.sin(t) + p[..., 1] * np.cos(t), p[..., 2]], -1)
    return Surf('Hyperboloid %s %s %s' % (fls(p1), fls(p2), fl(th)), [f], 64, 48, 'hyperboloid')


def paraboloid(r, zmin, zmax, th):
    def f(u, v):
        t = np.radians(th) * u
        z = zmin + v * (zmax - zmin)
        q = r * np.sqrt(z / zmax)
        return np.stack([q * np.cos(t), q * np.sin(t), z], -1)
    return Surf('Paraboloid %s %s %s %s' % tuple(map(fl, (r, zmin, zmax, th))), [f], 64, 64, 'paraboloid')


def disk(h, r, th):
    def f(u, v):
        t = np.radians(th) * u
        return np.stack([r * (1 - v) * np.cos(t), r * (1 - v) * np.sin(t), h + 0 * u], -1)
    return Surf('Disk %s %s %s' % tuple(map(fl, (h, r, th))), [f], 80, 6, 'disk')


def torus(R, r, p0, p1, th):
    def f(u, v):
        t, p = np.radians(th) * u, np.radians(p0 + v * (p1 - p0))
        q = R + r * np.cos(p)
        return np.stack([q * np.cos(t), q * np.sin(t), r * np.sin(p)], -1)
    return Surf('Torus %s %s %s %s %s' % tuple(map(fl, (R, r, p0, p1, th))), [f], 72, 48, 'torus')


BASES = {'bezier': (np.array([[-1, 3, -3, 1], [3, -6, 3, 0], [-3, 3, 0, 0], [1, 0, 0, 0]], float), 3),
         'b-spline': (np.array([[-1, 3, -3, 1], [3, -6, 3, 0], [-3, 0, 3, 0], [1, 4, 1, 0]], float) / 6, 1),
         'catmull-rom': (np.array([[-1, 3, -3, 1], [2, -5, 4, -1], [-1, 0, 1, 0], [0, 2, 0, 0]], float) / 2, 1),
         'hermite': (np.array([[2, 1, -2, 1], [-3, -2, 3, -1], [0, 1, 0, 0], [1, 0, 0, 0]], float), 2),
         'power': (np.eye(4), 4)}


def cubic_w(basis, t):
    """weights of the four control points at t"""
    return np.stack([t ** 3, t ** 2, t, np.ones_like(t)], -1) @ BASES[basis][0]


def bilinear(P):
    P = np.array(P, float).reshape(2, 2, -1)

    def f(u, v):
        u, v = u[..., None], v[..., None]
        return (P[0, 0] * (1 - u) + P[0, 1] * u) * (1 - v) + (P[1, 0] * (1 - u) + P[1, 1] * u) * v
    return f


def bicubic(P, ub, vb):
    P = np.array(P, float).reshape(4, 4, -1)

    def f(u, v):
        return np.einsum('...i,...j,jik->...k', cubic_w(ub, u), cubic_w(vb, v), P)
    return f


def patch(P, typ, ub='bezier', vb='bezier', pre=''):
    n = 2 if typ == 'bilinear' else 4
    f = bilinear(P) if n == 2 else bicubic(P, ub, vb)
    return Surf('%sPatch "%s" "P" [%s]' % (pre, typ, fls(P)), [f], 20 if n == 2 else 28, 20 if n == 2 else 28, 'patch-' + typ)


def basis_rib(ub, vb):
    return 'Basis "%s" %d "%s" %d ' % (ub, BASES[ub][1], vb, BASES[vb][1])


def mesh_pieces(nu, nv, typ, wu, wv, ub='bezier', vb='bezier'):
    """control point indices of each sub-patch, row major in v"""
    su, sv = (1, 1) if typ == 'bilinear' else (BASES[ub][1], BASES[vb][1])
    k = 2 if typ == 'bilinear' else 4

    def npat(n, w, s):
        if typ == 'bilinear':
            return n if w else n - 1
        return n // s if w else (n - 4) // s + 1
    nx, ny = npat(nu, wu, su), npat(nv, wv, sv)
    out = []
    for j in range(ny):
        for i in range(nx):
            out.append([((sv * j + b) % nv) * nu + (su * i + a) % nu for b in range(k) for a in range(k)])
    return out, nx, ny


def patchmesh(P, nu, nv, typ, wu, wv, ub='bezier', vb='bezier'):
    P = np.array(P, float).reshape(nu * nv, -1)
    idx, nx, ny = mesh_pieces(nu, nv, typ, wu, wv, ub, vb)
    pcs = [bilinear(P[i]) if typ == 'bilinear' else bicubic(P[i], ub, vb) for i in idx]
    rib = '%sPatchMesh "%s" %d "%s" %d "%s" "P" [%s]' % ('' if typ == 'bilinear' else basis_rib(ub, vb), typ, nu,
                                                         'periodic' if wu else 'nonperiodic', nv, 'periodic' if wv else 'nonperiodic', fls(P))
    s = Surf(rib, pcs, 10 if typ == 'bilinear' else 16, 10 if typ == 'bilinear' else 16, 'patchmesh-' + typ)
    s.nx, s.ny = nx, ny
    return s


def bspl(i, k, t, kn):
    """Cox-de Boor with the last knot span closed"""
    if k == 1:
        last = max(j for j in range(len(kn) - 1) if kn[j] < kn[j + 1])
        hi = (t <= kn[i + 1]) if i == last else (t < kn[i + 1])
        return ((t >= kn[i]) & hi & (kn[i] < kn[i + 1])).astype(float)
    a = kn[i + k - 1] - kn[i]
    b = kn[i + k] - kn[i + 1]
    r = np.zeros_like(t)
    if a > 0:
        r = r + (t - kn[i]) / a * bspl(i, k - 1, t, kn)
    if b > 0:
        r = r + (kn[i + k] - t) / b * bspl(i + 1, k - 1, t, kn)
    return r


def nupatch(nu, uo, uk, umin, umax, nv, vo, vk, vmin, vmax, Pw):
    Pw = np.array(Pw, float).reshape(nv, nu, 4)

    def f(u, v):
        us, vs = umin + u[0] * (umax - umin), vmin + v[:, 0] * (vmax - vmin)
        us = np.clip(us, umin, umax)
        A = np.stack([bspl(i, uo, us, uk) for i in range(nu)], -1)
        B = np.stack([bspl(i, vo, vs, vk) for i in range(nv)], -1)
        h = np.einsum('ui,vj,jik->vuk', A, B, Pw)
        return h[..., :3] / h[..., 3:4]
    rib = 'NuPatch %d %d [%s] %s %s %d %d [%s] %s %s "Pw" [%s]' % (nu, uo, fls(uk), fl(umin), fl(umax), nv, vo, fls(vk), fl(vmin), fl(vmax), fls(Pw))
    return Surf(rib, [f], 64, 64, 'nupatch')


def triangulate(poly):
    """ear clipping of a simple polygon in 2d -> index triples"""
    idx = list(range(len(poly)))
    area = sum(poly[i][0] * poly[(i + 1) % len(poly)][1] - poly[(i + 1) % len(poly)][0] * poly[i][1] for i in idx)
    if area < 0:
        idx.reverse()

    def cr(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    out = []
    guard = 0
    while len(idx) > 3 and guard < 1000:
        guard += 1
        for k in range(len(idx)):
            i, j, l = idx[k - 1], idx[k], idx[(k + 1) % len(idx)]
            a, b, c = poly[i], poly[j], poly[l]
            if cr(a, b, c) <= 1e-14:
                continue
            if any(cr(a, b, poly[m]) >= -1e-14 and cr(b, c, poly[m]) >= -1e-14 and cr(c, a, poly[m]) >= -1e-14
                   for m in idx if m not in (i, j, l)):
                continue
            out.append((i, j, l))
            idx.pop(k)
            break
        else:
            break
    out.append(tuple(idx[:3]))
    return [t[::-1] for t in out] if area < 0 else out


# ------------------------------------------------------------------ ray casting
class Camera:
    def __init__(self, W, H, fov=None, sw=None, near=1e-6, far=1e30, par=1.):
        self.W, self.H, self.fov, self.near, self.far, self.par = W, H, fov, near, far, par
        a = W * par / H
        self.sw = sw or ((-a, a, -1, 1) if a >= 1 else (-1, 1, -1 / a, 1 / a))

    def rays(self, px, py):
        """camera-space rays through raster positions; t is the camera depth"""
        l, r, b, t = self.sw
        sx = l + px / self.W * (r - l)
        sy = t - py / self.H * (t - b)
        o = np.zeros(px.shape + (6,))
        if self.fov is None:
            o[..., 0], o[..., 1], o[..., 5] = sx, sy, 1
        else:
            k = math.tan(math.radians(self.fov / 2))
            o[..., 3], o[..., 4], o[..., 5] = sx * k, sy * k, 1
        return o


def cast(cam, tris, rays, rxy, near, far, K=24):
    n, m = len(tris), len(rays)
    tris = np.ascontiguousarray(tris, 'f8')
    rays = np.ascontiguousarray(rays, 'f8')
    cnt = np.zeros(m, 'i4')
    tri = np.full((m, K), -1, 'i4')
    tt = np.full((m, K), np.inf)
    bb = np.zeros((m, K, 2))
    c = lambda a: a.ctypes.data_as(ctypes.c_void_p)
    # raster bounds of the triangles; those reaching behind the camera are unbounded
    box = np.zeros((n, 4), 'f4')
    if n:
        l, r, b, t = cam.sw
        if cam.fov is None:
            x, y, ok = tris[:, :, 0], tris[:, :, 1], np.ones(n, bool)
        else:
            z = tris[:, :, 2]
            ok = (z > 1e-3).all(1)
            k = math.tan(math.radians(cam.fov / 2)) * np.where(z > 1e-3, z, 1)
            x, y = tris[:, :, 0] / k, tris[:, :, 1] / k
        x, y = (x - l) / (r - l) * cam.W, (t - y) / (t - b) * cam.H
        box[:, 0], box[:, 1], box[:, 2], box[:, 3] = x.min(1) - .01, x.max(1) + .01, y.min(1) - .01, y.max(1) + .01
        box[~ok] = (-1e30, 1e30, -1e30, 1e30)
    rxy = np.ascontiguousarray(rxy, 'f4')
    lib().raycast(n, c(tris), m, c(rays), c(box), c(rxy), ctypes.c_double(near), ctypes.c_double(far), K, c(cnt), c(tri), c(tt), c(bb))
    return cnt, tri, tt, bb


class Scene:
    """objects: list of (prim, object-to-camera matrix, tag)"""
    def __init__(self, cam):
        self.cam, self.obj = cam, []

    def add(self, prim, m, tag):
        self.obj.append((prim, m, tag))

    def build(self):
        T, O, F, UV = [np.zeros((0, 3, 3))], [np.zeros(0, int)], [np.zeros(0, int)], [np.zeros((0, 3, 2))]
        for k, (p, m, tag) in enumerate(self.obj):
            t, f, uv = p.tris()
            T.append(xform(t, m))
            O.append(np.full(len(t), k))
            F.append(f)
            UV.append(uv)
        self.T, self.O, self.F, self.UV = map(np.concatenate, (T, O, F, UV))

    def trace(self, px, py):
        """-> per ray list of (object, depth, face, (u,v), front) sorted by depth;
        a list is None when it overflowed"""
        self.build()
        rays = self.cam.rays(px, py).reshape(-1, 6)
        cnt, tri, tt, bb = cast(self.cam, self.T, rays, np.stack([px.ravel(), py.ravel()], -1), self.cam.near, self.cam.far)
        nrm = np.cross(self.T[:, 1] - self.T[:, 0], self.T[:, 2] - self.T[:, 0]) if len(self.T) else np.zeros((0, 3))
        nrm = nrm / np.maximum(np.linalg.norm(nrm, axis=-1, keepdims=True), 1e-30)
        dirs = rays[:, 3:] / np.linalg.norm(rays[:, 3:], axis=-1, keepdims=True)
        out = []
        for r in range(len(rays)):
            if cnt[r] > tri.shape[1]:
                out.append(None)
                continue
            L = []
            for j in range(cnt[r]):
                i = tri[r, j]
                o, t = int(self.O[i]), tt[r, j]
                if L and L[-1][0] == o and abs(L[-1][1] - t) < 1e-7 * (1 + abs(t)):
                    continue
                b1, b2 = bb[r, j]
                uv = self.UV[i, 0] * (1 - b1 - b2) + self.UV[i, 1] * b1 + self.UV[i, 2] * b2
                L.append((o, t, int(self.F[i]), uv, float(np.dot(nrm[i], dirs[r]))))
            out.append(L)
        return out


OFFS = [(0, 0), (-1, 0), (1, 0), (0, -1), (0, 1), (-.7, -.7), (.7, .7), (-.7, .7), (.7, -.7)]


def probe(scene, delta=.5, px=None, py=None):
    """Trace pixel centres and their surroundings.
    -> list over pixels of list over offsets of hit lists (centre first)"""
    W, H = scene.cam.W, scene.cam.H
    if px is None:
        px, py = np.meshgrid(np.arange(W) + .5, np.arange(H) + .5)
    X = np.stack([px + dx * delta for dx, dy in OFFS], -1)
    Y = np.stack([py + dy * delta for dx, dy in OFFS], -1)
    h = scene.trace(X, Y)
    n = len(OFFS)
    return [h[i * n:(i + 1) * n] for i in range(px.size)], px.shape
