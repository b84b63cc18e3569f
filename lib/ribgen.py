"""Random RenderMan interface calls, their text form for the harness, and an
independent RIB encoder written from the RenderMan Interface spec appendix C."""
import gzip, math, struct
import rispec

PROCS = rispec.load()
BYNAME = {p.name: p for p in PROCS}
FILTERS = ['box', 'gaussian', 'triangle', 'mitchell', 'catmull-rom', 'sinc', 'bessel', 'disk']
ERRFUNCS = ['ignore', 'print', 'abort']
ICLASS = ['constant', 'uniform', 'varying', 'vertex', 'facevarying', 'facevertex']
TYPES = ['float', 'point', 'color', 'integer', 'string', 'vector', 'normal', 'hpoint', 'matrix', 'mpoint']
STORAGE = {'integer': 'I', 'string': 'S'}
NCOMP = {'float': 1, 'point': 3, 'color': 3, 'integer': 1, 'string': 1, 'vector': 3, 'normal': 3,
         'hpoint': 4, 'matrix': 16, 'mpoint': 16}
FIX = {'RtColor': 3, 'RtPoint': 3, 'RtBound': 6, 'RtMatrix': 16, 'RtBasis': 16}


def f32(x):
    try:
        return struct.unpack('>f', struct.pack('>f', x))[0]
    except OverflowError:
        return math.copysign(float('inf'), x)


def fbits(x):
    if x != x:
        return x_nanbits(x)
    return struct.unpack('>I', struct.pack('>f', x))[0]


def x_nanbits(x):
    return 0x7fc00000


def bitsf(u):
    return struct.unpack('>f', struct.pack('>I', u))[0]


class Param:
    __slots__ = ('iclass', 'type', 'n', 'name', 'kind', 'data', 'tok')

    def __init__(self, iclass, type_, n, name, kind, data, tok=None):
        self.iclass, self.type, self.n, self.name, self.kind, self.data, self.tok = iclass, type_, n, name, kind, data, tok

    def decl(self):
        s = self.iclass + ' ' + self.type
        if self.n != 1:
            s += '[%d]' % self.n
        return s


class Call:
    __slots__ = ('name', 'args', 'plist')

    def __init__(self, name, args=(), plist=None):
        self.name, self.args, self.plist = name, list(args), plist

    def line(self, ctok=False):
        return text(self, ctok)


def arr(kind, data):
    if kind == 'I':
        return 'I%d' % len(data) + ''.join(',%d' % v for v in data)
    if kind == 'F':
        return 'F%d' % len(data) + ''.join(',%08x' % fbits(v) for v in data)
    return 'S%d' % len(data) + ''.join(',' + v.hex() for v in data)


def text(c, ctok=False):
    o = [c.name]
    if c.name == 'ArchiveRecord':
        return '\t'.join(o + ['s' + a.hex() for a in c.args])
    if c.name == 'Procedural':
        return '\t'.join(o + ['p' + c.args[0], arr('S', c.args[1]), arr('F', c.args[2])])
    p = BYNAME[c.name]
    args = [a for a in p.args if a.type != 'RtArchiveCallback']
    for a, v in zip(args, c.args):
        t = a.type
        if t in ('RtInt', 'RtBoolean'):
            o.append('i%d' % v)
        elif t == 'RtFloat':
            o.append('f%08x' % fbits(v))
        elif t in ('RtString', 'RtToken'):
            o.append('s' + v.hex())
        elif t in FIX or t == 'RtFloatArray':
            o.append(arr('F', v))
        elif t == 'RtIntArray':
            o.append(arr('I', v))
        elif t in ('RtStringArray', 'RtTokenArray'):
            o.append(arr('S', v))
        elif t in ('RtFilterFunc', 'RtErrorFunc'):
            o.append('p' + v)
        else:
            raise Exception(t)
    if p.plist:
        ps = []
        for q in (c.plist or []):
            s = '%d.%d.%d:%s:%s' % (ICLASS.index(q.iclass), TYPES.index(q.type), q.n, q.name.hex(), arr(q.kind, q.data))
            if ctok and q.tok is not None:
                s += ':' + q.tok.hex()
            ps.append(s)
        o.append('P' + ';'.join(ps))
    return '\t'.join(o)


class Gen:
    def __init__(self, rng, special=True, strings='safe', maxlen=12, mpoint=False):
        self.types = TYPES if mpoint else TYPES[:-1]
        self.r = rng
        self.special = special      # inf, nan, denormals
        self.strings = strings      # safe | escape | any
        self.maxlen = maxlen
        self.declared = {}

    def flt(self):
        r = self.r
        k = r.random()
        if k < .25:
            return float(r.randint(-20, 20))
        if k < .5:
            return f32(round(r.uniform(-100, 100), r.randint(0, 6)))
        if k < .75:
            return f32(r.choice([-1, 1]) * 10 ** r.uniform(-6, 6))
        if k < .9:
            return f32(r.choice([-1, 1]) * 10 ** r.uniform(-37, 38))
        if k < .93:
            return r.choice([0.0, -0.0, 1.0, -1.0, 0.1, f32(1 / 3), 16777216.0, 16777217.0, 2147483648.0, 4294967296.0, f32(1e9), f32(999999999.0)])
        if self.special:
            u = r.choice([0x7f800000, 0xff800000, 0x00000001, 0x80000001, 0x7f7fffff, 0xff7fffff, 0x00800000, 0x7fc00000,
                          r.getrandbits(32), r.getrandbits(23), 0x41ff22ff, 0x0d0a0d0a, 0x22225c5c])
            v = bitsf(u)
            if v != v:
                return float('nan')
            return v
        return f32(r.uniform(-1, 1))

    def int_(self):
        r = self.r
        k = r.random()
        if k < .6:
            return r.randint(-5, 20)
        if k < .8:
            return r.randint(-70000, 70000)
        if k < .95:
            return r.randint(-2 ** 31, 2 ** 31 - 1)
        return r.choice([0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, 16777215, 16777216,
                         2 ** 31 - 1, -2 ** 31, -2 ** 31 + 1])

    def str_(self, minlen=0):
        r = self.r
        n = r.choice([0, 1, 3, 7, 8, 15, 16, 17, 31]) if r.random() < .3 else r.randint(1, 12)
        if r.random() < .02:
            n = r.choice([255, 256, 257, 300, 700])
        n = max(n, minlen)
        if self.strings == 'safe':
            al = b'abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-./:#[]{}()*&%$!@ \''
            return bytes(r.choice(al) for _ in range(n))
        if self.strings == 'escape':
            al = b'abc XYZ019\\"\n\r\t\b\f\x01\x1f\x7f\x80\xa0\xb0\xb1\xc3\xfe'
            return bytes(r.choice(al) for _ in range(n))
        return bytes(r.randint(1, 255) for _ in range(n))

    def ident(self):
        r = self.r
        al = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
        return (r.choice(al + '_') + ''.join(r.choice(al + '0123456789_') for _ in range(r.randint(0, 12)))).encode()

    def floats(self, n):
        return [self.flt() for _ in range(n)]

    def count(self):
        r = self.r
        k = r.random()
        if k < .05:
            return 0
        if k < .9:
            return r.randint(1, self.maxlen)
        return r.choice([16, 63, 64, 65, 255, 256, 257, 300])

    STD = {b'P': ('vertex', 'point', 1), b'Ka': ('uniform', 'float', 1), b'Kd': ('uniform', 'float', 1),
           b'N': ('varying', 'normal', 1), b'Cs': ('varying', 'color', 1), b'Pw': ('vertex', 'hpoint', 1),
           b'fov': ('uniform', 'float', 1), b'lightcolor': ('uniform', 'color', 1), b'from': ('uniform', 'point', 1),
           b's': ('varying', 'float', 1), b'st': ('varying', 'float', 2), b'Np': ('uniform', 'normal', 1),
           b'texturename': ('uniform', 'string', 1)}

    def param(self):
        r = self.r
        k = r.random()
        if k < .35:
            name, (ic, ty, n) = r.choice(sorted(self.STD.items()))
            if r.random() < .15:
                ty = r.choice(self.types)
        elif k < .5 and self.declared:
            name = r.choice(sorted(self.declared))
            ic, ty, n = self.declared[name]
            if r.random() < .2:
                n = r.randint(1, 5)
        else:
            name = self.ident()
            ic, ty = r.choice(ICLASS), r.choice(self.types)
            n = 1 if r.random() < .6 else r.randint(1, 9)
        kind = STORAGE.get(ty, 'F')
        cnt = self.count() if r.random() < .5 else NCOMP[ty] * n
        if kind == 'F':
            d = self.floats(cnt)
        elif kind == 'I':
            d = [self.int_() for _ in range(cnt)]
        else:
            d = [self.str_() for _ in range(cnt)]
        return Param(ic, ty, n, name, kind, d)

    def plist(self):
        return [self.param() for _ in range(self.r.choice([0, 0, 1, 1, 2, 3, 5]))]

    def call(self, name=None, exclude=()):
        r = self.r
        if name is None:
            name = r.choice(PROCS).name
            while name in exclude:
                name = r.choice(PROCS).name
        p = BYNAME[name]
        if name == 'Declare':
            nm = self.ident()
            ic, ty, n = r.choice(ICLASS), r.choice(self.types), (1 if r.random() < .6 else r.randint(1, 9))
            self.declared[nm] = (ic, ty, n)
            d = ''
            if ic != 'uniform' or r.random() < .7:
                d += ic + ' '
            d += ty
            if n != 1 or r.random() < .2:
                d += '[%d]' % n
            return Call(name, [nm, d.encode()])
        if name == 'Procedural':
            fn = r.choice(['DelayedReadArchive', 'RunProgram', 'DynamicLoad'])
            return Call(name, [fn, [self.str_() for _ in range(1 if fn[:2] == 'De' else 2)], self.floats(6)])
        args = []
        for a in p.args:
            t = a.type
            if t in ('RtInt',):
                args.append(self.int_())
            elif t == 'RtBoolean':
                args.append(r.randint(0, 1))
            elif t == 'RtFloat':
                args.append(self.flt())
            elif t in ('RtString', 'RtToken'):
                args.append(self.str_())
            elif t == 'RtBasis':
                if r.random() < .6:
                    b = list(r.choice(sorted(BASES.values())))
                    if r.random() < .25:
                        b[r.randrange(16)] += r.choice([1, -.5, .001])      # close to a named basis
                    args.append(b)
                else:
                    args.append(self.floats(16))
            elif t in FIX:
                args.append(self.floats(FIX[t]))
            elif t == 'RtFloatArray':
                args.append(self.floats(self.count()))
            elif t == 'RtIntArray':
                args.append([self.int_() for _ in range(self.count())])
            elif t in ('RtStringArray', 'RtTokenArray'):
                args.append([self.str_() for _ in range(self.count())])
            elif t == 'RtFilterFunc':
                args.append(r.choice(FILTERS))
            elif t == 'RtErrorFunc':
                args.append(r.choice(ERRFUNCS))
            elif t == 'RtArchiveCallback':
                pass
            else:
                raise Exception(t)
        if name == 'ColorSamples':
            args = [self.floats(9), self.floats(9)]
        return Call(name, args, self.plist() if p.plist else None)


S6, T3 = f32(1 / 6), f32(2 / 3)
BASES = {'bezier': (-1., 3., -3., 1., 3., -6., 3., 0., -3., 3., 0., 0., 1., 0., 0., 0.),
         'b-spline': (-S6, .5, -.5, S6, .5, -1., .5, 0., -.5, 0., .5, 0., S6, T3, S6, 0.),
         'catmull-rom': (-.5, 1.5, -1.5, .5, 1., -2.5, 2., -.5, -.5, 0., .5, 0., 0., 1., 0., 0.),
         'hermite': (2., 1., -2., 1., -3., -2., 3., -1., 0., 1., 0., 0., 1., 0., 0., 0.),
         'power': (1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.)}


# ------------------------------------------------------------ parsing the log
def parse_output(out):
    """-> {case id: {'log': [...], 'rib': bytes, 'live': int, 'done': bool}}"""
    res = {}
    cur = None
    for line in out.decode('latin-1').split('\n'):
        if line.startswith('CASE '):
            cur = res[line[5:]] = {'log': [], 'rib': None, 'live': None, 'done': False, 'g': b'', 'branch': []}
        elif cur is None:
            continue
        elif line.startswith('R '):
            cur['rib'] = bytes.fromhex(line[2:])
        elif line.startswith('N '):
            cur['live'] = int(line[2:])
        elif line.startswith('G '):
            cur['g'] = bytes.fromhex(line[2:])
        elif line == 'END':
            cur['done'] = True
        elif line[:2] in ('L ', 'E ', 'X ', '> ', 'Q '):
            cur['log'].append(line)
        elif line.startswith('B'):
            cur['branch'].append(line[1:])
    return res


def calls_of(log):
    return [l[2:] for l in log if l.startswith('L ')]


def errors_of(log):
    return [bytes.fromhex(l.split(' ')[-1]).decode('latin-1') for l in log if l[:2] in ('E ', 'X ')]


def case(id_, pipe, calls=None, data=None, ctok=False):
    o = ['CASE %s' % id_, 'PIPE ' + pipe]
    for c in calls or []:
        o.append('C ' + (c if isinstance(c, str) else text(c, ctok)))
    if data is not None:
        o.append('DATA ' + data.hex())
    o.append('GO')
    return '\n'.join(o) + '\n'
