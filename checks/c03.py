"""C03: errors in a RIB stream are reported where they are, confined to the
offending request, and no byte stream upsets the reader."""
import re, glob, os
import vlib, ribgen, ribrun, ribenc, c01
from ribgen import Gen, Call

POS = re.compile(r'^Parse error at (\S+):(\d+) \(col (\d+)\)')


def linecol(data, off):
    """1-based line and column of the byte at off; CR, LF and CRLF all end a line"""
    line, col = 1, 0
    prev = 0
    for c in data[:off + 1]:
        col += 1
        if c == 13 or (c == 10 and prev != 13):
            line += 1
            col = 0
        elif c == 10:
            col = 0
        prev = c
    return line, col


class Bad:
    """emits one malformed request with an Enc; .pos = offset of the token at fault (or None)"""
    def __init__(self, e, r, g):
        kind = self.kind = r.choice(['unknown', 'type', 'missing', 'extra', 'reserved', 'array', 'basis', 'param', 'number', 'loose'])
        self.pos = None
        e.ws()
        simple = [('Translate', 3), ('Scale', 3), ('Rotate', 4), ('Sphere', 4), ('Disk', 3), ('Clipping', 2), ('Shutter', 2), ('FieldOfView', 0)][:7]
        nm, na = r.choice(simple)
        wrongs = ['"str"', ']'] if True else []
        if kind == 'unknown':
            self.pos = len(e.out)
            e.out += r.choice([b'Bogus', b'sphere', b'Spheree', b'Spher', b'x', b'WorldBegin2', b'Attribute_', b'{', b'ABCDEFGHIJKLMNOPQRSTUVWXYZ' * 12])
            e.last_word = True
            for _ in range(r.randint(0, 4)):
                r.choice([lambda: e.flt(g.flt()), lambda: e.int(3), lambda: e.str(b'abc'), lambda: e.farr([1., 2.]), lambda: e.sarr([b'q', b'rs'])])()
        elif kind == 'type':
            e.out += nm.encode()
            e.last_word = True
            if nm in ('Sphere', 'Disk'):
                bad = r.randint(1, na - 1)          # the first may also begin an array
            else:
                bad = r.randint(0, na - 1)
            for i in range(bad):
                e.flt(1.5)
            e.ws()
            self.pos = len(e.out)
            e.out += r.choice([b'"string"', b']'] + ([b'['] if nm not in ('Sphere', 'Disk') else []))
            e.last_word = False
            for i in range(r.randint(0, 3)):
                e.flt(2.)
        elif kind == 'missing':
            e.out += b'Translate' if r.random() < .5 else b'Orientation'
            e.last_word = True
            if bytes(e.out).endswith(b'Translate'):
                for i in range(r.randint(0, 2)):
                    e.flt(2.)
        elif kind == 'extra':
            e.out += b'WorldEnd' if r.random() < .5 else b'FrameEnd'
            self.valid_prefix = bytes(e.out).endswith(b'WorldEnd') and 'WorldEnd' or 'FrameEnd'
            e.last_word = True
            e.ws()
            self.pos = len(e.out)
            e.out += r.choice([b'3', b'"x"', b'[', b']', b'1.5'])
            e.last_word = True
            for i in range(r.randint(0, 3)):
                e.flt(2.)
        elif kind == 'reserved':
            e.out += b'Translate'
            e.ws()
            self.pos = len(e.out)
            e.out += bytes([r.choice([0o247, 0o250, 0o277, 0o300, 0o307, 0o321, 0o376])])
            e.last_word = False
        elif kind == 'array':
            e.out += b'MotionBegin'
            e.last_word = True
            e.ws()
            e.out += b'['
            e.last_word = False
            for i in range(r.randint(0, 3)):
                e.flt(2.)
            e.ws()
            self.pos = len(e.out)
            e.out += r.choice([b'"x"', b'['])
            e.last_word = False
            for i in range(r.randint(0, 3)):
                e.flt(2.)
            if r.random() < .5:
                e.out += b']'
        elif kind == 'basis':
            e.out += b'Basis'
            e.ws()
            e.str(b'no-such-basis')
            e.int(3)
            e.str(b'bezier')
            e.int(3)
        elif kind == 'param':
            e.out += b'Attribute "user"'
            e.ws()
            e.out += r.choice([b'"undeclared_%d" [1 2]' % r.randint(0, 9), b'"uniform floaty x" [1]', b'"float[ x" [1]', b'"float[0] x" [1]', b'"float[-2] x" [1]',
                               b'"float x" ["str"]', b'"string x" [1]', b'"int x" [1.5]', b'"uniform pointer x" [1]', b'"" 1', b'" " 1', b'"constant x" 1', b'"float" 1', b'"float a b" 1'])
            e.last_word = False
        elif kind == 'number':
            e.out += b'Translate 1 '
            self.pos = len(e.out)
            e.out += r.choice([b'-', b'+', b'.', b'1e', b'1.e+', b'-.'])
            e.out += b' 1'
            e.last_word = True
        elif kind == 'loose':
            # tokens where a request should start (first thing in the stream only)
            pass


def structured(chk):
    n = chk.n(3500, 40000)
    names = [p.name for p in ribgen.PROCS]
    cases, meta = [], {}
    for i in range(n):
        r = chk.rng
        mode = ('ascii', 'mixed')[i % 2]
        g = Gen(r, special=False, strings='safe')
        e = ribenc.Enc(r, mode)
        plan = []           # ('ok', text) | ('bad', kind, start, end, pos)
        decl = dict(Gen.STD)
        for j in range(r.randint(2, 10)):
            if r.random() < .4:
                start = len(e.out)
                b = Bad(e, r, g)
                if b.kind == 'loose':
                    continue
                plan.append(['bad', b.kind, start, len(e.out), b.pos, getattr(b, 'valid_prefix', None)])
                if r.random() < .5:
                    e.ws()
                # what follows must begin with an unmistakable request
                c = Call('Identity')
                e.word(b'Identity')
                plan.append(['ok', ribgen.text(c)])
            else:
                c = g.call(names[(i * 5 + j) % len(names)] if j % 2 == 0 else None)
                plan.append(['ok', ribgen.text(e.call(c, decl))])
                if c.name == 'Declare':
                    decl[c.args[0]] = g.declared[c.args[0]]
        data = e.finish()
        ch = r.choice([1, 3, 255, 256, 4096])
        meta[str(i)] = (plan, data, mode)
        cases.append((str(i), ribgen.case(i, 'parse name=st.rib chunk=%d' % ch, data=data), repr(data)))
    res = ribrun.run_batch(chk, cases, 'parse')
    for i, (plan, data, mode) in meta.items():
        r = res.get(i)
        if not r:
            continue
        expect, bads = [], []
        for p in plan:
            if p[0] == 'ok':
                expect.append(p[1])
            else:
                bads.append(p)
                if p[5]:
                    expect.append(p[5])
        log = [l for l in r['log'] if not l.startswith('L ArchiveRecord')]
        got = ribgen.calls_of(log)
        er = ribgen.errors_of(log)
        payload = '--expected--\n%s\n--got--\n%s\n--errors--\n%s\n--rib--\n%r' % ('\n'.join(map(str, plan)), '\n'.join(got), '\n'.join(er), data)
        chk.eval(data if bads else None)
        chk.count('malformed_requests', len(bads))
        chk.count('errors_reported', len(er))
        for p in bads:
            chk.count('kind_' + p[1])
        if len(got) != len(expect):
            chk.violation('isolation-count', 'case %s: %d well-formed requests, %d delivered' % (i, len(expect), len(got)), payload)
            continue
        for a, b in zip(expect, got):
            why = c01.same(a, b, True, chk)
            if why:
                chk.violation('isolation:' + why, 'case %s: expected %s got %s' % (i, a[:200], b[:200]), payload)
        # one report per malformed request, at its place
        if len(er) != len(bads):
            chk.violation('error-count', 'case %s: %d malformed requests (%s), %d errors reported' % (i, len(bads), [b[1] for b in bads], len(er)), payload)
            continue
        for p, m in zip(bads, er):
            k = POS.match(m)
            if not k or k.group(1) != 'st.rib':
                chk.violation('error-form', 'case %s: error without position: %s' % (i, m), payload)
                continue
            l, c = int(k.group(2)), int(k.group(3))
            lo, hi = linecol(data, p[2])[0], linecol(data, min(len(data) - 1, p[3] + 60))[0]
            if not (lo <= l <= hi):
                chk.violation('error-line', 'case %s: %s error on lines %d..%d reported at line %d' % (i, p[1], lo, hi, l), payload)
            elif p[4] is not None:
                want = linecol(data, p[4])
                if (l, c) != want:
                    chk.violation('error-pos', 'case %s: %s at line %d col %d reported at line %d col %d: %s' % ((i, p[1]) + want + (l, c, m)), payload)
                else:
                    chk.count('positions_exact')
        if int(i) < 3:
            chk.sample({'stream': repr(data[:200]), 'errors': er[:2]})


def mutate(r, d, pool):
    d = bytearray(d)
    for _ in range(r.choice([1, 1, 2, 3, 6, 20])):
        k = r.random()
        if not d:
            d = bytearray(b'x')
        p = r.randrange(len(d))
        if k < .3:
            d[p] = r.randint(0, 255)
        elif k < .4:
            d[p] ^= 1 << r.randint(0, 7)
        elif k < .5:
            del d[p:p + r.randint(1, 12)]
        elif k < .65:
            d[p:p] = bytes(r.randint(0, 255) for _ in range(r.randint(1, 8)))
        elif k < .75:
            o = r.choice(pool)
            q = r.randrange(len(o)) if o else 0
            d[p:p] = o[q:q + r.randint(1, 60)]
        elif k < .85:
            d[p:p] = r.choice([b'\x9f', b'\xa0\xff', b'\xa3\x7f\xff\xff\xff', b'\xcb\x7f\xff\xff\xff', b'\xcb\xff\xff\xff\xff', b'\xa3\xff\xff\xff\xff', b'\xc8\xff', b'\xcc\x00', b'\xcd', b'\xcf', b'"', b'[', b']',
                               b'99999999999', b'-2147483648', b'1e99999999999', b'0.' + b'1' * 60, b'#', b'\r', b'\n', b'\xff',
                               b'ColorSamples [1 2 3] [1 2 3] Color [1] Opacity 1 ', b'ColorSamples [] [] Color [] ', b'ColorSamples [1 2 3 4 5 6][1 2 3 4 5 6] Color 1 2 '])
        elif k < .93:
            d = d[:p]
        else:
            d[p:p] = d[p:p + r.randint(1, 40)]
    return bytes(d)


def fuzz(chk):
    r = chk.rng
    pool = []
    names = [p.name for p in ribgen.PROCS]
    for i in range(400):
        g = Gen(r, strings='any', mpoint=True)
        e = ribenc.Enc(r, ('ascii', 'binary', 'mixed')[i % 3])
        for j in range(r.randint(1, 6)):
            e.call(g.call(names[(i * 3 + j) % len(names)]), Gen.STD)
        pool.append(e.finish(gz=i % 19 == 0))
    n = chk.n(5000, 60000)
    cases, meta = [], {}
    for i in range(n):
        k = r.random()
        if k < .05:
            d = bytes(r.randint(0, 255) for _ in range(r.randint(0, 300)))
        elif k < .1:
            d = bytes(r.choice(b'\x80\x84\x90\xa0\xa4\xa5\xa6\xc8\xcb\xcc\xcd\xce\xcf\xd0\xff"[] #1-.eA\n') for _ in range(r.randint(0, 200)))
        else:
            d = mutate(r, r.choice(pool), pool)
        meta[i] = d
        for j, ch in enumerate((4096, r.choice([1, 2, 5, 254, 255, 256, 257]))):
            cases.append(('%d.%d' % (i, j), ribgen.case('%d.%d' % (i, j), 'parse name=f chunk=%d' % ch, data=d), repr(d)))
    res = ribrun.run_batch(chk, cases, 'fuzz', chunk=200)
    for i, d in meta.items():
        a, b = res.get('%d.0' % i), res.get('%d.1' % i)
        if not a or not b:
            continue
        chk.eval(d if a['log'] else None)
        chk.count('fuzz_streams')
        if a['log'] != b['log'] or a['live'] != b['live']:
            chk.violation('chunking', 'fuzz case %d: result depends on how the stream is cut into pieces' % i,
                          '%r\n%s\n---\n%s' % (d, '\n'.join(a['log']), '\n'.join(b['log'])))


def truncation(chk):
    """at every cut point only whole requests are delivered"""
    r = chk.rng
    names = [p.name for p in ribgen.PROCS]
    cases, meta = [], {}
    for i in range(chk.n(25, 200)):
        g = Gen(r, special=False, strings='safe', maxlen=4)
        mode = ('ascii', 'binary', 'mixed')[i % 3]
        e = ribenc.Enc(r, mode)
        exp, ends = [], []
        for j in range(r.randint(2, 5)):
            exp.append(ribgen.text(e.call(g.call(names[(i * 5 + j) % len(names)]), Gen.STD)))
            ends.append(len(e.out))
        data = bytes(e.out)
        if len(data) > 1500:
            continue
        for cut in range(len(data)):
            cid = '%d.%d' % (i, cut)
            cases.append((cid, ribgen.case(cid, 'parse chunk=4096', data=data[:cut]), repr(data[:cut])))
            meta[cid] = (exp, ends, cut, mode)
    res = ribrun.run_batch(chk, cases, 'cut', chunk=400)
    for cid, (exp, ends, cut, mode) in meta.items():
        x = res.get(cid)
        if not x:
            continue
        got = [l for l in ribgen.calls_of(x['log']) if not l.startswith('ArchiveRecord')]
        whole = sum(1 for e in ends if e < cut)
        chk.eval(('cut' + cid).encode())
        chk.count('cut_points')
        if len(got) < whole or len(got) > whole + 1:
            chk.violation('cut-count', 'cut at %d: %d whole requests before the cut, %d delivered' % (cut, whole, len(got)), '\n'.join(got))
            continue
        for a, b in zip(exp[:whole], got):
            if c01.same(a, b, mode != 'binary', chk):
                chk.violation('cut-value', 'cut at %d: %s delivered as %s' % (cut, a[:150], b[:150]), None)


def main():
    chk = vlib.Check('C03', rule='(1) streams mixing well-formed requests with malformed ones of nine kinds; (2) random and mutated byte streams '
                     'read twice with different chunk sizes; (3) every truncation point of valid streams. Distinct by bytes; non-trivial: has a malformed '
                     'request, produced at least one event, or is a cut point.')
    vlib.build(['h_rib'])
    structured(chk)
    fuzz(chk)
    truncation(chk)
    chk.assumptions = ['malformed string literals without closing quote are excluded from (1): they swallow the rest of the stream by definition']
    return chk.finish()
