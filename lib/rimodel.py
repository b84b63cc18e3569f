"""Which interface calls are valid, from the interface description."""
import re
import ribgen
from ribgen import Gen, Call, Param, BYNAME, NCOMP, f32

IGN = {'Outside', 'If', 'Resource'}
SCOPED = ['Frame', 'World', 'Attribute', 'Transform', 'Solid', 'Object', 'Motion', 'Archive']
EPS = 1.1920928955078125e-07
REQP = {'Polygon', 'GeneralPolygon', 'PointsPolygons', 'PointsGeneralPolygons', 'Patch', 'PatchMesh', 'NuPatch', 'Points', 'Curves', 'SubdivisionMesh'}


def tdiv(a, b):
    return int(a / b) if b else 0


def csum(a, st=0, step=1):
    return sum(a[st::step])


class Reject(Exception):
    pass


class Model:
    def __init__(self, relaxed):
        self.relaxed = relaxed
        self.scopes = ['Any' if relaxed else 'BeginEnd']
        self.attrs = [(3, 3)]

    def env(self, c):
        p = BYNAME[c.name]
        e = {a.name: v for a, v in zip([a for a in p.args if a.type != 'RtArchiveCallback'], c.args)}
        return e

    def expr(self, s, e, c):
        if 'strcmp' in s:
            return 4 if e['type'] == b'bilinear' else 16
        s = s.replace('countP(pList)', str(self.countP(c)) if 'countP' in s else '')
        g = {'sum': csum, 'size': len, 'max': lambda a: max(a) if a else 0, '__builtins__': {}}
        for k, v in e.items():
            if k == 'max':
                continue
            if re.search(r'\b%s\b' % k, s):
                g[k] = v
        return eval(s, g)

    def countP(self, c):
        for q in c.plist or []:
            if q.name == b'P':
                return len(q.data) // 3
            if q.name == b'Pw':
                return len(q.data) // 4
        raise Reject('no P')

    def counts(self, c):
        p, e = BYNAME[c.name], self.env(c)
        d = dict(constant=1, uniform=1, varying=1, vertex=1, facevarying=1, facevertex=1)
        if c.name == 'Geometry':
            return dict(constant=1, uniform=-1, varying=-1, vertex=-1, facevarying=-1, facevertex=-1)
        us, vs = self.attrs[-1]
        if c.name == 'PatchMesh':
            nu, nv = e['nu'], e['nv']
            up, vp = e['uwrap'] == b'periodic', e['vwrap'] == b'periodic'
            if e['type'] == b'bilinear':
                d['uniform'] = (nu if up else nu - 1) * (nv if vp else nv - 1)
                d['varying'] = nu * nv
            elif self.relaxed:
                d['uniform'] = d['varying'] = -1
            else:
                a = tdiv(nu, us) if up else tdiv(nu - 4, us) + 1
                b = tdiv(nv, vs) if vp else tdiv(nv - 4, vs) + 1
                d['uniform'] = a * b
                d['varying'] = (a + (not up)) * (b + (not vp))
            d['vertex'] = nu * nv
            return d
        if c.name == 'Curves':
            nvs = e['nvertices']
            d['uniform'], d['vertex'] = len(nvs), sum(nvs)
            if e['type'] == b'cubic':
                if self.relaxed:
                    d['varying'] = -1
                elif e['wrap'] == b'periodic':
                    d['varying'] = sum(tdiv(k, vs) for k in nvs)
                else:
                    d['varying'] = sum(tdiv(k - 4, vs) + 1 for k in nvs) + len(nvs)
            else:
                d['varying'] = d['vertex']
            return d
        ic = p.iclass
        if 'Uniform' in ic:
            d['uniform'] = self.expr(ic['Uniform'], e, c)
        if 'Varying' in ic:
            d['varying'] = self.expr(ic['Varying'], e, c)
        if p.has_iclass:
            d['vertex'] = self.expr(ic['Vertex'], e, c) if 'Vertex' in ic else d['varying']
            d['facevarying'] = self.expr(ic['FaceVarying'], e, c) if 'FaceVarying' in ic else d['varying']
            d['facevertex'] = self.expr(ic['FaceVertex'], e, c) if 'FaceVertex' in ic else d['facevarying']
        return d

    def check(self, c):
        """raises Reject; returns the number of warnings"""
        p, e = BYNAME[c.name], self.env(c) if c.name != 'Procedural' else {}
        top = self.scopes[-1]
        ok = [s for s in p.scopes if s not in IGN]
        if ok and top != 'Any' and top not in ok:
            raise Reject('scope')
        warn = 0
        for a in p.args:
            if a.type in ('RtArchiveCallback', 'RtPointer') or a.name not in e:
                continue
            v = e[a.name]
            for op, lim in a.ranges:
                L = EPS if lim == 'RI_EPSILON' else e[lim] if lim in e else float(lim)
                if not {'gt': v > L, 'lt': v < L, 'ge': v >= L, 'le': v <= L, 'ne': v != L}[op]:
                    raise Reject('range %s %s %s' % (a.name, op, lim))
            if a.length:
                n = self.expr(a.length, e, c)
                if len(v) < n:
                    raise Reject('length %s' % a.name)
                warn += len(v) > n
        if p.plist:
            d = self.counts(c)
            if not (c.name in ('PatchMesh', 'Curves') and top == 'Archive'):
                for q in c.plist or []:
                    n = d[q.iclass] * NCOMP[q.type] * q.n
                    if n < 0:
                        continue
                    if len(q.data) < n:
                        raise Reject('param length')
                    warn += len(q.data) > n
            if 'P' in p.required and not any(q.name in (b'P', b'Pw') for q in c.plist or []):
                raise Reject('P missing')
        return warn

    def step(self, c):
        """apply an accepted call"""
        n = c.name
        if n == 'Basis':
            self.attrs[-1] = (c.args[1], c.args[3])
        if n.endswith('Begin') and n[:-5] not in ('If',):
            k = n[:-5]
            if k != 'Transform':
                self.attrs.append(self.attrs[-1])
            if k in SCOPED and not (self.scopes[-1] == 'Archive' and k != 'Archive'):
                self.scopes.append(k)
        elif n.endswith('End') and n[:-3] not in ('If',):
            k = n[:-3]
            if k != 'Transform' and len(self.attrs) > 1:
                self.attrs.pop()
            if k in SCOPED and len(self.scopes) > 1 and not (self.scopes[-1] == 'Archive' and k != 'Archive'):
                self.scopes.pop()


class ArgGen(Gen):
    """arguments near their validity boundaries"""
    def small(self):
        return self.r.choice([-1, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8])

    def vcall(self, name, m):
        r = self.r
        p = BYNAME[name]
        c = self.call(name)
        if name == 'Procedural':
            return c
        al = [a for a in p.args if a.type != 'RtArchiveCallback']
        idx = {a.name: i for i, a in enumerate(al)}
        for i, a in enumerate(al):
            if a.type == 'RtInt':
                c.args[i] = self.small() if r.random() < .85 else r.choice([1, 2, 9, 100])
            elif a.type == 'RtIntArray':
                c.args[i] = [r.choice([0, 1, 2, 3, 3, 4, 4, 5, 7]) for _ in range(r.randint(0, 3))]
            if a.name == 'type' and name in ('Patch', 'PatchMesh'):
                c.args[i] = r.choice([b'bilinear', b'bicubic', b'bilinear', b'bicubic', b'other'])
            if a.name == 'type' and name == 'Curves':
                c.args[i] = r.choice([b'cubic', b'linear'])
            if a.name in ('uwrap', 'vwrap', 'wrap'):
                c.args[i] = r.choice([b'periodic', b'nonperiodic'])
        # ranges
        for i, a in enumerate(al):
            if not a.ranges:
                continue
            for op, lim in a.ranges:
                if lim in idx:
                    j = idx[lim]
                    if r.random() < .85:
                        x = c.args[j]
                        if x != x or abs(x) > 1e30:
                            x = c.args[j] = 1.5 if a.type == 'RtFloat' else 5
                        dlt = r.choice([1e-3, 1., 5.]) if a.type == 'RtFloat' else r.choice([1, 2])
                        v = {'lt': x - dlt, 'le': x - dlt * r.randint(0, 1), 'gt': x + dlt, 'ge': x + dlt * r.randint(0, 1), 'ne': x + dlt}[op]
                        if r.random() < .12:
                            v = r.choice([x, x + dlt, x - dlt])
                        c.args[i] = f32(v) if a.type == 'RtFloat' else int(v)
                else:
                    L = EPS if lim == 'RI_EPSILON' else float(lim)
                    good = {'gt': [L + 1, L + .01], 'ge': [L, L + 1], 'lt': [L - 1], 'le': [L, L - .25], 'ne': [L + 1, L - 1]}[op]
                    bad = [L, L - 1, L - 1e-4, L + 1, float('nan')]
                    if r.random() < .88:
                        if a.type == 'RtFloat':
                            v = c.args[i]
                            okv = v == v and {'gt': v > L, 'ge': v >= L, 'lt': v < L, 'le': v <= L, 'ne': v != L}[op]
                            if not okv or r.random() < .5:
                                c.args[i] = f32(r.choice(good))
                        else:
                            v = c.args[i]
                            if not {'gt': v > L, 'ge': v >= L, 'lt': v < L, 'le': v <= L, 'ne': v != L}[op]:
                                c.args[i] = int(L) + 1
                    else:
                        c.args[i] = f32(r.choice(bad)) if a.type == 'RtFloat' else r.choice([int(L), int(L) - 1, int(L) + 1])
        # lengths
        for i, a in enumerate(al):
            if not a.length:
                continue
            try:
                n = m.expr(a.length, m.env(c), c)
            except Exception:
                continue
            k = r.random()
            n += 0 if k < .9 else r.choice([-1, 1, 2])
            n = max(0, min(n, 80))
            if a.type == 'RtIntArray':
                c.args[i] = [r.choice([0, 0, 1, 1, 2, 3, 4, 5]) for _ in range(n)]
            elif a.type == 'RtFloatArray':
                c.args[i] = self.floats(n)
            else:
                c.args[i] = [self.str_() for _ in range(n)]
        if p.plist:
            pl = []
            if name in REQP and r.random() < .93:
                w = r.random() < .2
                pl.append(Param('vertex', 'hpoint' if w else 'point', 1, b'Pw' if w else b'P', 'F', self.floats((4 if w else 3) * r.randint(0, 6))))
            for _ in range(r.choice([0, 0, 1, 2])):
                q = self.param()
                if q.name not in (b'P', b'Pw'):
                    pl.append(q)
            c.plist = pl
            try:
                d = m.counts(c)
            except Reject:
                d = None
            if d:
                for q in pl:
                    if q.name in (b'P', b'Pw') and name in ('Polygon', 'Points'):
                        continue
                    n = d[q.iclass] * NCOMP[q.type] * q.n
                    if n < 0:
                        n = r.randint(0, 4)
                    k = r.random()
                    n += 0 if k < .92 else r.choice([-1, 1, -NCOMP[q.type]])
                    n = max(0, min(n, 900))
                    q.data = self.floats(n) if q.kind == 'F' else [self.int_() for _ in range(n)] if q.kind == 'I' else [self.str_() for _ in range(n)]
            r.shuffle(pl)
        for i, a in enumerate(al):
            if a.type == 'RtFloat':
                c.args[i] = f32(c.args[i])
        return c


BEGINS = ['FrameBegin', 'WorldBegin', 'AttributeBegin', 'TransformBegin', 'SolidBegin', 'ObjectBegin', 'MotionBegin', 'ArchiveBegin']
