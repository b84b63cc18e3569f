"""Independent encoder for the RenderMan Interface Bytestream (RISpec 3.2
appendix C): chooses at random among the legal encodings of every token."""
import gzip, struct
import ribgen
from ribgen import Call, Param, f32, BYNAME, FIX, BASES

WS = [b' ', b'\t', b'\n', b'\r\n', b'\r', b'  ', b' \n\t']


def quotable(s):
    return not any(c in s for c in b'"\\\r\xff\0') 


class Enc:
    def __init__(self, rng, mode):
        self.r, self.mode = rng, mode       # ascii | binary | mixed
        self.strs, self.reqs = {}, {}
        self.out = bytearray()
        self.comments = []
        self.exact = mode == 'binary'
        self.last_word = False
        self.kinds = {}

    # -- plumbing
    def k(self, name):
        self.kinds[name] = self.kinds.get(name, 0) + 1

    def bin(self):
        return self.mode == 'binary' or (self.mode == 'mixed' and self.r.random() < .5)

    def ws(self):
        r = self.r
        if r.random() < .06:
            c = bytes(r.choice(b'abc ##"[]0129\\\t') for _ in range(r.randint(0, 14)))
            nl = r.choice([b'\n', b'\r', b'\r\n'])
            self.out += b' #' + c + nl
            self.comments.append(c)
            self.last_word = False
            return
        self.out += r.choice(WS) * (r.randint(1, 3) if r.random() < .2 else 1)
        self.last_word = False

    def word(self, b):
        """emit an ASCII token which ends only at a delimiter"""
        if self.last_word or self.r.random() < .8:
            self.ws()
        self.out += b
        self.last_word = True

    def punct(self, b):
        if self.r.random() < .5:
            self.ws()
        self.out += b
        self.last_word = False

    def raw(self, b):
        if self.r.random() < .1:
            self.ws()
        if self.r.random() < .03 and self.mode != 'ascii':
            self.definestr()
        self.out += b
        self.last_word = False

    def definestr(self, s=None):
        r = self.r
        wide = r.random() < .3
        code = r.randint(0, 65535) if wide else r.randint(0, 255)
        if s is None:
            s = bytes(r.randint(33, 126) for _ in range(r.randint(0, 5)))
        self.out += bytes([0o315 + wide]) + code.to_bytes(1 + wide, 'big')
        self.plainstr(s)
        self.strs[code] = s
        self.k('define-string')
        return code

    def plainstr(self, s):
        n = len(s)
        if n < 16 and self.r.random() < .7:
            self.out += bytes([0o220 + n]) + s
        elif quotable(s) and self.r.random() < .3:
            self.out += b'"' + s + b'"'
        else:
            w = self.r.randint(1 if n < 256 else 2, 4)
            self.out += bytes([0o240 + w - 1]) + n.to_bytes(w, 'big') + s
        self.last_word = False

    # -- tokens
    def int(self, v):
        r = self.r
        if self.bin():
            self.k('int-binary')
            u = v & 0xffffffff
            lo = 4 if v < 0 else max(1, (v.bit_length() + 7) // 8)
            w = r.randint(lo, 4)
            self.raw(bytes([0o200 + w - 1]) + u.to_bytes(w, 'big'))
        else:
            self.k('int-ascii')
            s = b'%d' % v
            if v >= 0 and r.random() < .1:
                s = b'+' + s
            if r.random() < .1:
                s = (s[:1] if s[:1] in b'+-' else b'') + b'00' + s.lstrip(b'+-')
            self.word(s)

    def flt(self, v):
        """emit a float; returns the value the reader must produce"""
        r = self.r
        if self.bin():
            k = r.random()
            if k < .2 or v != v or v in (float('inf'), float('-inf')):
                if v != v:
                    v = float('nan')
                self.raw(b'\xa4' + struct.pack('>I', ribgen.fbits(v)))
                self.k('float32')
                return v
            if k < .4:
                self.k('float64')
                d = v * (1 + r.uniform(-1, 1) * 1e-9) if r.random() < .5 else v
                self.raw(b'\xa5' + struct.pack('>d', d))
                return f32(d)
            if k < .6:
                self.k('fixed')
                d, w = r.randint(1, 3), r.randint(1, 4)
                val = r.getrandbits(8 * w)
                self.raw(bytes([0o200 + 4 * d + w - 1]) + val.to_bytes(w, 'big'))
                mag, frac = val >> (8 * d), val & ((1 << 8 * d) - 1)
                return f32(f32(mag) + f32(frac / float(1 << 8 * d)))
            if k < .75:
                v = float(r.randint(-2 ** 31, 2 ** 31 - 1)) if r.random() < .3 else float(r.randint(-300, 300))
                self.int(int(v))
                return f32(v)
            self.raw(b'\xa4' + struct.pack('>I', ribgen.fbits(v)))
            self.k('float32')
            return v
        if v != v or abs(v) > 3e38 or (v != 0 and abs(v) < 1e-36):
            v = f32(r.uniform(-9, 9))
        self.k('float-ascii')
        k = r.random()
        if k < .25 and abs(v) < 2e9:
            v = float(int(v)) if abs(v) < 1e6 else float(r.randint(-1000, 1000))
            self.int_ascii(int(v))
            return f32(v)
        if k < .5:
            s = '%.9g' % v
            if '.' not in s and 'e' not in s:
                s += r.choice(['.', '.0', '.000'])
        elif k < .7 and abs(v) < 1e6:
            v = f32(round(v, 4))
            s = '%.4f' % v
            if r.random() < .5 and abs(v) < 1 and s.lstrip('-').startswith('0.'):
                s = s.replace('0.', '.', 1)
        elif k < .85:
            s = ('%.8e' if r.random() < .5 else '%.8E') % v
            if r.random() < .3:
                s = s.replace('+', '')
        else:
            m = r.randint(-999, 999)
            e = r.randint(-6, 6)
            s = '%de%d' % (m, e)
            v = f32(float(s))
        if r.random() < .1 and not s.startswith('-'):
            s = '+' + s
        self.word(s.encode())
        return f32(float(s))

    def int_ascii(self, v):
        self.k('float-as-int')
        self.word(b'%d' % v)

    def str(self, s):
        r = self.r
        if self.bin() or not quotable(s):
            self.exact_str = True
            if r.random() < .4:
                have = [c for c, t in self.strs.items() if t == s]
                if have and r.random() < .8:
                    code = r.choice(have)
                else:
                    if r.random() < .1:
                        self.ws()
                    code = self.definestr(s)
                w = r.randint(1 if code < 256 else 2, 2)
                self.raw_nodef(bytes([0o317 + w - 1]) + code.to_bytes(w, 'big'))
                self.k('string-lookup')
            else:
                if r.random() < .1:
                    self.ws()
                self.plainstr(s)
                self.k('string-binary')
        else:
            if r.random() < .5:
                self.ws()
            o = b''
            for c in s:
                ch = bytes([c])
                if ch == b' ' and r.random() < .1:
                    o += b'\\ '
                elif ch == b'\n' and r.random() < .5:
                    o += r.choice([b'\r\n', b'\r'])
                else:
                    o += ch
            self.out += b'"' + o + b'"'
            self.k('string-ascii')
            self.last_word = False

    def raw_nodef(self, b):
        self.out += b
        self.last_word = False

    def request(self, name):
        r = self.r
        name = name.encode()
        if self.mode != 'ascii' and r.random() < .5:
            have = [c for c, t in self.reqs.items() if t == name]
            if not have or r.random() < .05:
                code = r.randint(0, 255)
                if self.last_word or r.random() < .5:
                    self.ws()
                self.out += bytes([0o314, code])
                self.plainstr(name)
                self.reqs[code] = name
            else:
                code = r.choice(have)
            self.out += bytes([0o246, code])
            self.last_word = False
            self.k('request-coded')
        else:
            self.word(name)
            self.k('request-ascii')

    def farr(self, v):
        r = self.r
        if self.bin() and r.random() < .5:
            w = r.randint(1 if len(v) < 256 else 2, 4)
            self.raw(bytes([0o310 + w - 1]) + len(v).to_bytes(w, 'big') +
                     b''.join(struct.pack('>I', ribgen.fbits(x)) for x in v))
            self.k('float-array')
            return list(v)
        self.punct(b'[')
        o = [self.flt(x) for x in v]
        self.punct(b']')
        return o

    def iarr(self, v):
        self.punct(b'[')
        for x in v:
            self.int(x)
        self.punct(b']')

    def sarr(self, v):
        self.punct(b'[')
        for x in v:
            self.str(x)
        self.punct(b']')

    def fixed(self, v, may_bare):
        if may_bare and self.r.random() < .5:
            self.k('bare-floats')
            return [self.flt(x) for x in v]
        return self.farr(v)

    # -- parameter lists
    def decl(self, p):
        r = self.r

        def case(s):
            return s if r.random() < .9 else s.upper() if r.random() < .5 else s.capitalize()
        sp = lambda: r.choice([' ', ' ', ' ', '  ', '\t', '\n'])
        s = ''
        if r.random() < .05:
            s += sp()
        if p.iclass != 'uniform' or r.random() < .7:
            s += case(p.iclass) + sp()
        t = p.type
        if t == 'integer' and r.random() < .4:
            t = 'int'
        s += case(t)
        if p.n != 1 or r.random() < .1:
            s += (sp() if r.random() < .15 else '') + '[' + (' ' if r.random() < .1 else '') + '%d' % p.n + (' ' if r.random() < .1 else '') + ']'
            if r.random() < .8:
                s += sp()
        else:
            s += sp()
        s = s.encode() + p.name
        if r.random() < .08:
            s += b' '
            self.k('name-trailing-space')
        return s

    def plist(self, pl, declared):
        out = []
        for p in pl or []:
            if declared.get(p.name) == (p.iclass, p.type, p.n) and self.r.random() < .6:
                nm = p.name
                if self.r.random() < .08:
                    nm += self.r.choice([b' ', b'  ', b'\t'])
                self.str(nm)
                self.k('declared-param')
            else:
                self.str(self.decl(p))
                self.k('inline-param')
            q = Param(p.iclass, p.type, p.n, p.name, p.kind, list(p.data))
            if len(p.data) == 1 and self.r.random() < .6:
                self.k('bare-param')
                if p.kind == 'F':
                    q.data = [self.flt(p.data[0])]
                elif p.kind == 'I':
                    self.int(p.data[0])
                else:
                    self.str(p.data[0])
            elif p.kind == 'F':
                q.data = self.farr(p.data)
            elif p.kind == 'I':
                self.iarr(p.data)
            else:
                self.sarr(p.data)
            out.append(q)
        return out

    def call(self, c, declared):
        """encode; returns the call the reader must deliver"""
        r = self.r
        self.request(c.name)
        if c.name == 'Procedural':
            self.str(c.args[0].encode())
            self.sarr(c.args[1])
            return Call(c.name, [c.args[0], c.args[1], self.farr(c.args[2])])
        p = BYNAME[c.name]
        if c.name == 'DepthOfField' and r.random() < .2:
            m = ribgen.bitsf(0x7f7fffff)
            return Call(c.name, [m, m, m])
        if p.canbearray or c.name == 'Hyperboloid':
            flat = []
            for v in c.args:
                flat += v if isinstance(v, list) else [v]
            got = self.fixed(flat, True)
            args, i = [], 0
            for v in c.args:
                if isinstance(v, list):
                    args.append(got[i:i + len(v)])
                    i += len(v)
                else:
                    args.append(got[i])
                    i += 1
        else:
            args = []
            al = [a for a in p.args if a.type != 'RtArchiveCallback']
            skip = c.name == 'SubdivisionMesh' and not any(c.args[3:7]) and r.random() < .7
            for i, (a, v) in enumerate(zip(al, c.args)):
                t = a.type
                if skip and i >= 3:
                    args.append(v)
                    continue
                if t in ('RtInt', 'RtBoolean'):
                    self.int(v)
                elif t == 'RtFloat':
                    v = self.flt(v)
                elif t in ('RtString', 'RtToken'):
                    if a.altint and r.random() < .4:
                        n = r.randint(-3, 70000)
                        self.int(n)
                        v = b'%d' % n
                        self.k('int-handle')
                    else:
                        self.str(v)
                elif t == 'RtBasis':
                    nm = [k for k, b in BASES.items() if list(b) == list(v)]
                    if nm and r.random() < .7:
                        self.str(nm[0].encode())
                        self.k('basis-name')
                    else:
                        v = self.farr(v)
                elif t in ('RtColor', 'RtBound'):
                    v = self.fixed(v, True)
                elif t in FIX or t == 'RtFloatArray':
                    v = self.farr(v)
                elif t == 'RtIntArray':
                    self.iarr(v)
                elif t in ('RtStringArray', 'RtTokenArray'):
                    self.sarr(v)
                elif t in ('RtFilterFunc', 'RtErrorFunc'):
                    self.str(v.encode())
                else:
                    raise Exception(t)
                args.append(v)
        pl = self.plist(c.plist, declared) if p.plist else None
        return Call(c.name, args, pl)

    def finish(self, gz=False, eof=False):
        self.ws()
        if eof:
            self.out += b'\xff' + bytes(self.r.randint(0, 255) for _ in range(self.r.randint(0, 40)))
            self.k('eof-byte')
        o = bytes(self.out)
        return gzip.compress(o, mtime=0) if gz else o
