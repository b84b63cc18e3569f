"""Random shading language programs with an independent scalar interpreter.

Expressions are (text, type, varying, eval) built together; a program is run once
per shading point, in double and in rounded single precision, and a point is judged
only where both agree (so decisions near ties and badly conditioned values drop out)."""
import math, random, struct

_p = struct.Struct('<f')


def r32(x):
    try:
        return _p.unpack(_p.pack(x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


class Skip(Exception):
    """the point has no defined value (division by zero, domain error)"""


class Break(Exception):
    def __init__(self, n):
        self.n = n


class Continue(Exception):
    def __init__(self, n):
        self.n = n


class M:
    """arithmetic of one evaluation"""
    def __init__(self, mode):
        """mode: 0 double, 1 single precision, 2 single precision with noise in every operation"""
        if mode == 2:
            rnd = random.Random(7).random
            self.r = lambda x: x * (1 + 4e-7 * (rnd() - .5)) if x != round(x) else x
        else:
            self.r = r32 if mode else (lambda x: x)
        self.steps = 0

    def m(self, f, *a):
        """map a float function over floats or tuples, with promotion"""
        n = max([len(x) for x in a if isinstance(x, tuple)] or [0])
        if not n:
            return self.one(f, *a)
        return tuple(self.one(f, *[x[i] if isinstance(x, tuple) else x for x in a]) for i in range(n))

    def one(self, f, *a):
        try:
            y = self.r(f(*a))
        except (ValueError, ZeroDivisionError, OverflowError):
            raise Skip()
        if isinstance(y, complex) or y != y or abs(y) > 1e8:
            raise Skip()
        return y


class E:
    __slots__ = ('t', 'ty', 'var', 'f', 'pr')

    def __init__(self, t, ty, var, f, pr=9):
        self.t, self.ty, self.var, self.f, self.pr = t, ty, var, f, pr

    def paren(self):
        return self.t if self.pr >= 9 else '(' + self.t + ')'


def num(x):
    s = '%.6g' % x
    if 'e' in s:
        s = '%.8f' % x
    return s


def const(x):
    s = num(x)
    v = r32(float(s))
    if s.startswith('-'):
        return E(s, 'f', False, lambda e, m: v, 5)
    return E(s, 'f', False, lambda e, m: v)


TRI = 'cpvn'
NAME = {'f': 'float', 'c': 'color', 'p': 'point', 'v': 'vector', 'n': 'normal', 'm': 'matrix', 's': 'string'}


def triple(ty, a, b, c, name=None):
    t = '%s(%s, %s, %s)' % (name or NAME[ty], a.t, b.t, c.t)
    return E(t, ty, a.var or b.var or c.var, lambda e, m: (a.f(e, m), b.f(e, m), c.f(e, m)))


def dot(m, a, b):
    return m.one(lambda *q: sum(x * y for x, y in zip(a, b)), 0)


def cross(m, a, b):
    return (m.one(lambda z: a[1] * b[2] - a[2] * b[1], 0), m.one(lambda z: a[2] * b[0] - a[0] * b[2], 0), m.one(lambda z: a[0] * b[1] - a[1] * b[0], 0))


def promote(v):
    return v if isinstance(v, tuple) else (v, v, v)


PREC = {'+': 3, '-': 3, '*': 5, '/': 5, '^': 4, '.': 6}
FOP = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}


def binop(r, op, a, b, ty):
    """a op b; text relies on precedence where that is certain"""
    p = PREC[op]
    if op in '^.':
        ta, tb = a.paren(), b.paren()
    else:
        ta = a.t if a.pr > p or (a.pr == p) else '(' + a.t + ')'
        tb = b.t if b.pr > p else '(' + b.t + ')'
    t = '%s %s %s' % (ta, op, tb)
    if op == '.':
        f = lambda e, m: dot(m, a.f(e, m), b.f(e, m))
    elif op == '^':
        f = lambda e, m: cross(m, a.f(e, m), b.f(e, m))
    else:
        g = FOP[op]
        f = lambda e, m: m.m(g, a.f(e, m), b.f(e, m))
    return E(t, ty, a.var or b.var, f, p)


def neg(a):
    return E('-' + (a.t if a.pr >= 9 else '(' + a.t + ')'), a.ty, a.var, lambda e, m: m.m(lambda x: -x, a.f(e, m)), 7)


def call(name, ty, args, g, cast=None):
    """g(m, *values) -> value"""
    t = '%s(%s)' % (name, ', '.join(a.t for a in args))
    if cast:
        t = cast + ' ' + t
    return E(t, ty, any(a.var for a in args), lambda e, m: g(m, *[a.f(e, m) for a in args]))


def elem(f):
    return lambda m, *a: m.m(f, *a)


def near(a, b):
    """too close to tell apart, given the rounding of single precision"""
    return a != b and abs(a - b) <= 1e-5 * (1 + abs(a))


def floor(x):
    if near(x, round(x)):
        raise Skip()
    return math.floor(x)


def ceil(x):
    return -floor(-x)


def rel(f):
    def g(x, y):
        if near(x, y):
            raise Skip()
        return f(x, y)
    return g


def same(a, b):
    if any(near(x, y) for x, y in zip(a, b)):
        raise Skip()
    return a == b


def rsl_mod(a, b):
    n = floor(a / b)
    return a - n * b


def smoothstep(a, b, x):
    if x <= a:
        return 0.
    if x >= b:
        return 1.
    x = (x - a) / (b - a)
    return x * x * (3 - 2 * x)


def rnd_half(x):
    """round, undefined at halves"""
    if abs(abs(x - math.floor(x)) - .5) < 1e-5:
        raise ValueError
    return math.floor(x + .5)


F1 = {'sin': math.sin, 'cos': math.cos, 'abs': abs, 'floor': floor, 'ceil': ceil, 'round': rnd_half,
      'radians': math.radians, 'degrees': math.degrees, 'sign': lambda x: rel(lambda a, b: (a > b) - (a < b))(x, 0.), 'atan': math.atan}


class Gen:
    """random program generator"""
    def __init__(self, r, size=12, funcs=True, arrays=True, builtins=True):
        self.r = r
        self.size = size
        self.k = 0
        self.scope = []         # list of dicts name -> (type, varying, array length or 0, writable)
        self.funcs = []
        self.depth = 0
        self.use_funcs, self.use_arrays = funcs, arrays
        self.loops = []         # kinds of the enclosing loops: 'u' or 'v'
        self.ctx = False        # inside varying control flow
        self.stats = {}

    def st(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def name(self, p='x'):
        self.k += 1
        return '%s%d' % (p, self.k)

    def vars(self, ty, write=False, arr=0):
        out = []
        for d in self.scope:
            for n, (t, var, al, w) in d.items():
                if t == ty and bool(al) == bool(arr) and (w or not write):
                    if write and self.ctx and not var:
                        continue
                    out.append((n, var, al))
        return out

    # ------------------------------------------------ expressions
    def var(self, ty, uni):
        c = [(n, v) for n, v, al in self.vars(ty) if not (uni and v)]
        if not c:
            return None
        n, v = self.r.choice(c)
        return E(n, ty, v, lambda e, m: e[n])

    def leaf(self, ty, uni=False):
        r = self.r
        if r.random() < .75:
            x = self.var(ty, uni)
            if x:
                return x
        if ty == 'f':
            return const(r.choice([0, 1, 2, .5, round(r.uniform(-3, 3), 3), round(r.uniform(0, 1), 4)]))
        if ty == 'm':
            if r.random() < .3:
                k = round(r.uniform(.5, 2), 3)
                return E('matrix %s' % num(k), 'm', False, lambda e, m: tuple(m.r(k) if i % 5 == 0 else 0. for i in range(16)), 5)
            a = [const(round(r.uniform(-1, 1) + (2 if i % 5 == 0 else 0), 3)) for i in range(16)]
            return E('matrix(%s)' % ', '.join(x.t for x in a), 'm', False, lambda e, m: tuple(x.f(e, m) for x in a))
        if r.random() < .25:
            x = self.leaf('f', uni)
            return E('%s %s' % (NAME[ty], x.paren()), ty, x.var, lambda e, m: promote(x.f(e, m)), 8)
        return triple(ty, *[self.leaf('f', uni) for _ in range(3)])

    def arr(self, ty, uni, d):
        c = [(n, v, al) for n, v, al in self.vars(ty, arr=1) if not (uni and v)]
        if not c:
            return None
        n, v, al = self.r.choice(c)
        i = self.index(al, uni, d)
        self.st('array_read')
        return E('%s[%s]' % (n, i.t), ty, v or i.var, lambda e, m: e[n][int(i.f(e, m))])

    def index(self, al, uni, d):
        """an index expression inside the array"""
        if self.r.random() < .4:
            return const(self.r.randrange(al))
        x = self.expr('f', uni, d + 2)
        t = 'clamp(floor(%s), 0, %d)' % (x.t, al - 1)
        return E(t, 'f', x.var, lambda e, m: m.one(lambda q: min(max(floor(q), 0), al - 1), x.f(e, m)))

    def expr(self, ty, uni=False, d=0):
        r = self.r
        if d > 3 or r.random() < .15 + .12 * d:
            return self.leaf(ty, uni)
        k = r.random()
        ex = lambda t: self.expr(t, uni, d + 1)
        if k < .06 and self.use_arrays:
            x = self.arr(ty, uni, d)
            if x:
                return x
        if k < .14 and (ty == 'f' or d == 0):
            # the compiler takes colour or point valued conditionals only as whole right-hand sides,
            # and no overloaded functions as their operands
            c = self.rel(uni, d + 1)
            a, b = [self.leaf(ty, uni) if ty == 'm' or r.random() < .6 else binop(r, r.choice('+-'), self.leaf(ty, uni), self.leaf(ty, uni), ty) for _ in range(2)]
            self.st('conditional_expression')
            return E('%s ? %s : %s' % (c.t if r.random() < .5 else '(' + c.t + ')', a.paren(), b.paren()), ty, c.var or a.var or b.var,
                     lambda e, m: a.f(e, m) if c.f(e, m) else b.f(e, m), 0)
        if k < .2 and self.use_funcs and self.funcs:
            fs = [f for f in self.funcs if f['ret'] == ty]
            if fs and not uni:
                return self.callf(r.choice(fs), d)
        if ty == 'm':
            if k < .5:
                return binop(r, '*', ex('m'), ex('m'), 'm')._m() if False else self.mmul(ex('m'), ex('m'))
            return self.leaf('m', uni)
        if ty == 'f':
            if k < .5:
                op = r.choice('++--**/')
                a, b = ex('f'), ex('f')
                if op == '/':
                    b = self.safe(b)
                return binop(r, op, a, b, 'f')
            if k < .56:
                return neg(ex('f'))
            if k < .64:
                t = r.choice('pvn')
                return binop(r, '.', ex(t), ex(t), 'f')
            if k < .8:
                n = r.choice(sorted(F1))
                return call(n, 'f', [ex('f')], elem(F1[n]))
            n, na, f = r.choice([('min', 2, min), ('max', 2, max), ('min', 3, min), ('max', 4, max), ('clamp', 3, None), ('mix', 3, None), ('step', 2, None),
                                 ('smoothstep', 3, None), ('mod', 2, None), ('pow', 2, None), ('sqrt', 1, None), ('exp', 1, None), ('log', 1, None)])
            a = [ex('f') for _ in range(na)]
            if n == 'clamp':
                lo = round(r.uniform(-1, 0), 2)
                a[1], a[2] = const(lo), const(round(lo + r.uniform(.1, 2), 2))
                f = lambda x, l, h: min(max(x, l), h)
            elif n == 'mix':
                f = lambda x, y, t: x * (1 - t) + y * t
            elif n == 'step':
                f = rel(lambda q, x: 0. if x < q else 1.)
            elif n == 'smoothstep':
                lo = round(r.uniform(-1, 0), 2)
                a[0], a[1] = const(lo), const(round(lo + r.uniform(.1, 2), 2))
                f = smoothstep
            elif n == 'mod':
                a[1] = const(round(r.uniform(.2, 2), 3))
                f = rsl_mod
            elif n == 'pow':
                a[0], a[1] = self.safe(a[0]), const(r.choice([2, .5, 1.5, 3, 0]))
                f = lambda x, y: x ** y
            elif n == 'sqrt':
                a[0], f = self.safe(a[0]), math.sqrt
            elif n == 'log':
                a[0], f = self.safe(a[0]), math.log
            elif n == 'exp':
                a[0] = call('clamp', 'f', [a[0], const(-4), const(4)], elem(lambda x, l, h: min(max(x, l), h)))
                f = math.exp
            return call(n, 'f', a, elem(f))
        # triples
        if k < .45:
            return binop(r, r.choice('+-'), ex(ty), ex(ty), ty)
        if k < .6:
            a, b = ex('f'), ex(ty)
            if r.random() < .5:
                return binop(r, '*', a, b, ty)
            return binop(r, '*', b, a, ty)
        if k < .68:
            return binop(r, '/', ex(ty), self.safe(ex('f')), ty)
        if k < .74 and ty == 'c':
            return binop(r, '*', ex('c'), ex('c'), ty)
        if k < .78:
            return neg(ex(ty))
        if k < .84 and ty == 'v':
            return binop(r, '^', ex('v'), ex('v'), ty)
        if k < .9:
            n = r.choice(['mix', 'min', 'max', 'clamp'])
            if n == 'mix':
                return call(n, ty, [self.leaf(ty, uni), self.leaf(ty, uni), ex('f')], elem(lambda x, y, t: x * (1 - t) + y * t))
            if n == 'clamp':
                return call(n, ty, [self.leaf(ty, uni), triple(ty, const(-.5), const(0), const(-1)), triple(ty, const(.5), const(1), const(1))], elem(lambda x, l, h: min(max(x, l), h)))
            return call(n, ty, [self.leaf(ty, uni), self.leaf(ty, uni)], elem(min if n == 'min' else max))
        return triple(ty, ex('f'), ex('f'), ex('f'))

    def mmul(self, a, b):
        return E('%s * %s' % (a.paren(), b.paren()), 'm', a.var or b.var, lambda e, m: matmul(m, a.f(e, m), b.f(e, m)), 5)

    def safe(self, b):
        """a positive float away from zero"""
        return E('(abs(%s) + 0.5)' % b.t, 'f', b.var, lambda e, m: m.one(lambda x: abs(x) + .5, b.f(e, m)))

    def rel(self, uni=False, d=0):
        r = self.r
        k = r.random()
        if d < 3 and k < .18:
            a, b = self.rel(uni, d + 1), self.rel(uni, d + 1)
            op = r.choice(['&&', '||'])
            self.st('logical')
            return E('(%s) %s (%s)' % (a.t, op, b.t), 'b', a.var or b.var,
                     (lambda e, m: a.f(e, m) & b.f(e, m)) if op == '&&' else (lambda e, m: a.f(e, m) | b.f(e, m)), 1)
        if d < 3 and k < .25:
            a = self.rel(uni, d + 1)
            self.st('not')
            return E('!(%s)' % a.t, 'b', a.var, lambda e, m: not a.f(e, m), 1)
        if k < .33:
            ty = r.choice(TRI)
            a, b = self.leaf(ty, uni), self.leaf(ty, uni)
            eq = r.random() < .5
            self.st('compare_triple')
            return E('%s %s %s' % (a.paren(), '==' if eq else '!=', b.paren()), 'b', a.var or b.var,
                     lambda e, m: same(a.f(e, m), b.f(e, m)) == eq, 2)
        if k < .4:
            a, b = [r.choice(['on', 'off', 'a b', '']) for _ in range(2)]
            eq = r.random() < .5
            self.st('compare_string')
            sv = self.vars('s')
            if sv and r.random() < .7:
                n = r.choice(sv)[0]
                return E('%s %s "%s"' % (n, '==' if eq else '!=', b), 'b', False, lambda e, m: (e[n] == b) == eq, 2)
            return E('"%s" %s "%s"' % (a, '==' if eq else '!=', b), 'b', False, lambda e, m: (a == b) == eq, 2)
        a, b = self.expr('f', uni, d + 1), self.expr('f', uni, d + 1)
        while a.t.startswith('mix(') and ' ? ' in b.t or b.t.startswith('mix(') and ' ? ' in a.t:
            a, b = self.leaf('f', uni), self.expr('f', uni, d + 1)      # see the known finding load:conditional-against-mix
        op = r.choice(['<', '>', '<=', '>=', '<', '>', '==', '!='])
        if op in ('==', '!='):
            a = E('floor(%s)' % a.t, 'f', a.var, (lambda g: lambda e, m: m.one(floor, g(e, m)))(a.f))
            b = const(r.choice([-1, 0, 1, 2]))
        f = {'<': lambda x, y: x < y, '>': lambda x, y: x > y, '<=': lambda x, y: x <= y, '>=': lambda x, y: x >= y, '==': lambda x, y: x == y, '!=': lambda x, y: x != y}[op]
        return E('%s %s %s' % (a.t if a.pr > 2 else '(' + a.t + ')', op, b.t if b.pr > 2 else '(' + b.t + ')'), 'b', a.var or b.var, lambda e, m: rel(f)(a.f(e, m), b.f(e, m)), 2)

    # ------------------------------------------------ functions
    def callf(self, fn, d):
        """call of a user function with value parameters only"""
        if fn['out']:
            return self.leaf(fn['ret'])
        args = [self.expr(t, False, d + 1) for t in fn['params']]
        self.st('function_call')
        return E('%s(%s)' % (fn['name'], ', '.join(a.t for a in args)), fn['ret'], True, lambda e, m: fn['run'](m, [a.f(e, m) for a in args])[0])

    def function(self):
        r = self.r
        name = self.name('fn')
        np_ = r.randint(1, 3)
        params = [r.choice('ffcpv') for _ in range(np_)]
        ret = r.choice('ffcpv')
        out = r.choice('fc') if r.random() < .35 else None
        save = self.scope, self.loops, self.ctx
        self.scope = [{}]
        self.loops, self.ctx = [], True
        pn = []
        for t in params:
            n = self.name('a')
            pn.append(n)
            self.scope[0][n] = (t, True, 0, False)
        on = None
        if out:
            on = self.name('o')
            self.scope[0][on] = (out, True, 0, True)
        body, runs = self.block(r.randint(1, 3), 1)
        res = self.expr(ret, False, 1)
        self.scope, self.loops, self.ctx = save
        decl = '; '.join('%s %s' % (NAME[t], n) for t, n in zip(params, pn))
        if out:
            decl += '; output %s %s' % (NAME[out], on)
        text = ['%s %s(%s)' % (NAME[ret], name, decl), '{'] + ['\t' + l for l in body] + ['\treturn %s;' % res.t, '}']

        def run(m, args, ov=None):
            e = dict(zip(pn, args))
            if on:
                e[on] = ov
            for s in runs:
                s(e, m)
            return res.f(e, m), e.get(on)
        self.funcs.append(dict(name=name, params=params, ret=ret, out=out, run=run))
        return text

    # ------------------------------------------------ statements
    def block(self, n, d):
        """-> lines, runners (in a scope of its own)"""
        self.scope.append({})
        L, R = [], []
        for _ in range(n):
            l, f = self.stmt(d)
            L += l
            R.append(f)
        self.scope.pop()
        return L, R

    def decl(self):
        r = self.r
        ty = r.choice('fffccpvnm')
        uni = r.random() < .25
        n = self.name()
        if self.use_arrays and ty in 'fcv' and r.random() < .2:
            al = r.randint(2, 5)
            xs = [self.expr(ty, uni, 2) for _ in range(al)]
            self.scope[-1][n] = (ty, not uni, al, True)
            self.st('array_decl')

            def f(e, m):
                e[n] = [x.f(e, m) for x in xs]
            return ['%s%s %s[%d] = { %s };' % ('uniform ' if uni else r.choice(['', 'varying ']), NAME[ty], n, al, ', '.join(x.t for x in xs))], f
        x = self.expr(ty, uni, r.randint(0, 1) if ty != 'm' else 2)
        self.scope[-1][n] = (ty, not uni, 0, True)

        def f(e, m):
            e[n] = x.f(e, m)
        return ['%s%s %s = %s;' % ('uniform ' if uni else r.choice(['', 'varying ']), NAME[ty], n, x.t)], f

    def assign(self, d):
        r = self.r
        for _ in range(6):
            ty = r.choice('ffccpvnm')
            if self.use_arrays and ty in 'fcv' and r.random() < .3:
                c = self.vars(ty, write=True, arr=1)
                if not c:
                    continue
                n, v, al = r.choice(c)
                i = self.index(al, not v, 1)
                x = self.expr(ty, not v, r.randint(0, 1))
                op = r.choice(['=', '=', '+=', '-=', '*=']) if ty != 'v' else r.choice(['=', '+=', '-='])
                self.st('array_write' + (op if op != '=' else ''))

                def f(e, m):
                    k = int(i.f(e, m))
                    y = x.f(e, m)
                    if op != '=':
                        y = m.m(FOP[op[0]], e[n][k], y)
                    e[n][k] = y
                return ['%s[%s] %s %s;' % (n, i.t, op, x.t)], f
            c = self.vars(ty, write=True)
            if not c:
                continue
            n, v, _ = r.choice(c)
            op = r.choice(['=', '=', '=', '+=', '-=', '*=', '/='])
            if ty == 'm':
                op = '='
            if op in ('*=', '/='):
                if ty != 'f' and op == '/=' or ty in 'pvn':
                    op = '='
            x = self.expr(ty, not v, r.randint(0, 1))
            if op == '/=':
                x = self.safe(x)
            self.st('assign' + op)

            def f(e, m):
                y = x.f(e, m)
                if op != '=':
                    y = m.m(FOP[op[0]], e[n], y)
                e[n] = y
            return ['%s %s %s;' % (n, op, x.t)], f
        return self.decl()

    def stmt(self, d):
        r = self.r
        k = r.random()
        if d > 3 or k < .3:
            return self.decl()
        if k < .62:
            return self.assign(d)
        if k < .68:
            fs = [f for f in self.funcs if f['out']]
            if fs and self.use_funcs:
                fn = r.choice(fs)
                c = [x for x in self.vars(fn['out'], write=True) if x[1]]
                t = [x for x in self.vars(fn['ret'], write=True) if x[1]]
                if c and t:
                    o = r.choice(c)[0]
                    t = r.choice(t)[0]
                    if o != t:
                        args = [self.expr(q, False, 2) for q in fn['params']]
                        # arguments are passed by reference: keep them apart from the output
                        if not any(o in __import__('re').findall(r'\w+', a.t) for a in args):
                            self.st('function_output')

                            def f(e, m):
                                v, w = fn['run'](m, [a.f(e, m) for a in args], e[o])
                                e[o] = w
                                e[t] = v
                            return ['%s = %s(%s, %s);' % (t, fn['name'], ', '.join(a.t for a in args), o)], f
            return self.assign(d)
        if k < .84:
            return self.if_(d)
        if k < .97:
            return self.loop(d)
        L, R = self.block(r.randint(1, 3), d + 1)

        def f(e, m):
            for s in R:
                s(e, m)
        return ['{'] + ['\t' + l for l in L] + ['}'], f

    def if_(self, d):
        r = self.r
        c = self.rel(uni=r.random() < .2)
        if r.random() < .1:
            x = self.expr('f', False, 2)
            x = E('floor(%s)' % x.t, 'f', x.var, (lambda g: lambda e, m: m.one(floor, g(e, m)))(x.f))
            c = E(x.t, 'b', x.var, (lambda g: lambda e, m: g(e, m) != 0)(x.f))
        ctx = self.ctx
        self.ctx = ctx or c.var
        self.st('if_varying' if c.var else 'if_uniform')
        A, RA = self.block(r.randint(1, 3), d + 1)
        B, RB = (self.block(r.randint(1, 3), d + 1) if r.random() < .55 else ([], []))
        self.ctx = ctx
        if self.loops and r.random() < .3:
            n = r.randint(1, min(2, len(self.loops)))
            # leaving several loops is done at points of the same kind only
            if n > 1 and len(set(self.loops[-n:])) > 1:
                n = 1
            brk = r.random() < .5
            if brk or n == 1:
                ok = not c.var or self.loops[-1] == 'v'
                ok = ok and (self.loops[-1] == 'v' or not self.ctx)
                if ok:
                    w = 'break' if brk else 'continue'
                    self.st(w + str(n))
                    A = A + ['%s%s;' % (w, ' %d' % n if n > 1 or r.random() < .2 else '')]

                    def bf(e, m):
                        raise (Break if brk else Continue)(n)
                    RA = RA + [bf]
        L = ['if (%s)' % c.t, '{'] + ['\t' + l for l in A] + ['}']
        if B:
            L += ['else', '{'] + ['\t' + l for l in B] + ['}']

        def f(e, m):
            for s in (RA if c.f(e, m) else RB):
                s(e, m)
        return L, f

    def loop(self, d):
        r = self.r
        uni = r.random() < .3
        if uni and self.ctx:
            uni = False
        i = self.name('i')
        n = self.name('n')
        self.scope.append({})
        lim = const(r.randint(1, 4)) if uni or r.random() < .4 else None
        if lim is None:
            x = self.expr('f', False, 2)
            lim = E('mod(floor(%s), 5)' % x.t, 'f', x.var, (lambda g: lambda e, m: m.one(lambda q: rsl_mod(floor(q), 5), g(e, m)))(x.f))
        ctx = self.ctx
        # inside a varying loop the running points differ
        self.ctx = ctx or not uni
        self.loops.append('u' if uni else 'v')
        self.scope[-1][i] = ('f', not uni, 0, False)
        A, RA = self.block(r.randint(1, 3), d + 1)
        self.loops.pop()
        self.ctx = ctx
        self.scope.pop()
        u = 'uniform ' if uni else ''
        kind = r.random()
        self.st(('for' if kind < .5 else 'while') + ('_uniform' if uni else '_varying'))

        def body(e, m):
            m.steps += 1
            if m.steps > 20000:
                raise Skip()
            for s in RA:
                s(e, m)
        if kind < .5:
            L = ['%sfloat %s;' % (u, i), '%sfloat %s = %s;' % (u, n, lim.t), 'for (%s = 0; %s < %s; %s += 1)' % (i, i, n, i), '{'] + ['\t' + l for l in A] + ['}']
        else:
            # the counter moves first so that continue cannot loop for ever
            L = ['%sfloat %s = -1;' % (u, i), '%sfloat %s = %s - 1;' % (u, n, lim.t), 'while (%s < %s)' % (i, n), '{', '\t%s += 1;' % i] + ['\t' + l for l in A] + ['}']

        def f(e, m):
            e[n] = lim.f(e, m)
            k = 0
            while k < e[n]:
                e[i] = float(k)
                try:
                    body(e, m)
                except Break as b:
                    if b.n > 1:
                        raise Break(b.n - 1)
                    break
                except Continue as b:
                    if b.n > 1:
                        raise Continue(b.n - 1)
                k += 1
            e[i] = float(k)
        return ['{'] + ['\t' + l for l in L] + ['}'], f


def matmul(m, a, b):
    return tuple(m.one(lambda z: sum(a[4 * i + k] * b[4 * k + j] for k in range(4)), 0) for i in range(4) for j in range(4))


OUTS = [('oa', 'f'), ('ob', 'c'), ('oc', 'p'), ('od', 'v'), ('oe', 'f'), ('of', 'n')]


class Program:
    """a surface shader with outputs OUTS; run(point, single) -> {out: value}"""
    def __init__(self, r, name, size=None):
        self.name = name
        g = self.g = Gen(r)
        g.scope = [{}]
        self.params = {}
        P = []
        for ty in 'ffcpvs':
            n = g.name('par')
            if ty == 's':
                v = r.choice(['on', 'off', 'a b', ''])
                d = '"%s"' % r.choice(['on', 'off'])
                g.scope[0][n] = ('s', False, 0, False)
            else:
                v = r.randint(-64, 64) / 32 if ty == 'f' else tuple(r.randint(-64, 64) / 32 for _ in range(3))
                d = num(1) if ty == 'f' else '%s(0, 1, 2)' % NAME[ty]
                g.scope[0][n] = (ty, False, 0, False)
            if ty in 'pv':
                d = '%s "current" (0, 1, 2)' % NAME[ty]
            P.append('%s %s = %s' % (NAME[ty], n, d))
            self.params[n] = (ty, v)
        fs = []
        for _ in range(r.randint(0, 2)):
            fs += g.function()
        for n, t in (('s', 'f'), ('t', 'f')):
            g.scope[0][n] = (t, True, 0, False)
        for n, t in OUTS:
            g.scope[0][n] = (t, True, 0, True)
        self.items = [g.stmt(0) for _ in range(size or r.randint(4, 14))]
        for n, t in OUTS:
            if r.random() < .8:
                x = g.expr(t, False, 0)
                self.items.append((['%s = %s;' % (n, x.t)], (lambda n, x: lambda e, m: e.__setitem__(n, x.f(e, m)))(n, x)))
        self.fs, self.P = fs, P
        self.build()

    def build(self):
        o = ['output varying %s %s = 0' % (NAME[t], n) for n, t in OUTS] + ['output varying float is = 0', 'output varying float it = 0']
        self.text = '\n'.join(self.fs + ['surface %s(%s)' % (self.name, '; '.join(self.P + o)), '{', '\tis = s; it = t;'] +
                              ['\t' + l for i in self.items for l in i[0]] + ['\tCi = Cs; Oi = Os;', '}']) + '\n'

    def args(self):
        out = []
        for n, (ty, v) in self.params.items():
            if ty == 's':
                out.append('"uniform string %s" ["%s"]' % (n, v))
            else:
                out.append('"uniform %s %s" [%s]' % (NAME[ty], n, ' '.join(map(num, v if isinstance(v, tuple) else (v,)))))
        return ' '.join(out)

    def run(self, s, t, single):
        m = M(single)
        q = m.r if single == 2 else r32
        e = {'s': q(s), 't': q(t)}
        for n, (ty, v) in self.params.items():
            e[n] = v if ty == 's' else q(v) if ty == 'f' else tuple(map(q, v))
        for n, ty in OUTS:
            e[n] = 0. if ty == 'f' else (0., 0., 0.)
        for _, f in self.items:
            f(e, m)
        return e
