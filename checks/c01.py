"""C01: what is written as RIB is what is read back."""
import struct
import vlib, ribgen, ribrun
from ribgen import Gen, Call, fbits


def esc(s):
    o = b''
    for c in s:
        ch = bytes([c])
        m = {34: b'\\"', 10: b'\\n', 13: b'\\r', 9: b'\\t', 8: b'\\b', 12: b'\\f', 92: b'\\\\'}.get(c)
        if m:
            o += m
        elif 32 <= c <= 176:
            o += ch
        else:
            o += b'\\%o' % c
    return o


def fclose(a, b):
    fa, fb = (ribgen.bitsf(int(x, 16)) for x in (a, b))
    if fa == fb:
        return True
    return abs(fa - fb) <= 2e-6 * max(abs(fa), abs(fb)) + 1e-44


def tokens(line):
    out = []
    for f in line.split('\t'):
        for g in f.split(';'):
            for h in g.split(':'):
                out += h.split(',')
    return out


def same(sent, got, ascii_, chk):
    """None if equal, else reason"""
    if sent == got:
        return None
    a, b = sent.split('\t'), got.split('\t')
    if len(a) != len(b) or a[0] != b[0]:
        return 'shape'
    if not ascii_:
        return 'value'
    known = None
    for x, y in zip(a[1:], b[1:]):
        if x == y:
            continue
        xs, ys = x.split(';'), y.split(';')
        if len(xs) != len(ys):
            return 'shape'
        for p, q in zip(xs, ys):
            if p == q:
                continue
            pp, qq = p.split(':'), q.split(':')
            if len(pp) != len(qq) or pp[:-1] != qq[:-1]:
                return 'param'
            u, v = pp[-1], qq[-1]
            if u[0] == 'P':
                return 'param'
            k = u[0]
            if k != v[0]:
                return 'type'
            if k == 'f':
                if not fclose(u[1:], v[1:]):
                    return 'float'
            elif k == 'F':
                ul, vl = u.split(','), v.split(',')
                if ul[0] != vl[0] or not all(fclose(m, n) for m, n in zip(ul[1:], vl[1:])):
                    return 'float'
            elif k in 's':
                if bytes.fromhex(v[1:]) == esc(bytes.fromhex(u[1:])):
                    known = 'ascii-string-escape'
                else:
                    return 'string'
            elif k == 'S':
                ul, vl = u.split(','), v.split(',')
                if ul[0] != vl[0]:
                    return 'string'
                for m, n in zip(ul[1:], vl[1:]):
                    if m != n:
                        if bytes.fromhex(n) == esc(bytes.fromhex(m)):
                            known = 'ascii-string-escape'
                        else:
                            return 'string'
            else:
                return 'value'
    return known


def MP(calls):
    return {p.type for c in calls for p in (c.plist or [])}


def main():
    chk = vlib.Check('C01', rule='A case is a random sequence of interface calls (all 108 requests, random scalars, arrays, '
                     'parameter lists, declarations, comments) serialised by the real writer in one of the encodings and read back by '
                     'the real parser; distinct by the call text and encoding, non-trivial when at least one request was delivered.')
    vlib.build(['h_rib'])
    n = chk.n(4000, 60000)
    wcases, meta = [], {}
    names = [p.name for p in ribgen.PROCS]
    for i in range(n):
        binary, gz = i % 2 == 1, (i // 2) % 4 == 3
        strings = chk.rng.choice(['safe', 'safe', 'any' if binary else 'escape'])
        g = Gen(chk.rng, special=binary, strings=strings, mpoint=i % 60 == 7)
        calls = []
        for j in range(chk.rng.randint(1, 14)):
            if chk.rng.random() < .06:
                s = Gen(chk.rng, strings='safe').str_(1).replace(b'#', b'x')
                calls.append(Call('ArchiveRecord', [chk.rng.choice([b'comment', b'structure']), s]))
            else:
                # cycle through all requests so that each one is always covered
                nm = names[(i * 7 + j) % len(names)] if j % 2 == 0 else None
                calls.append(g.call(nm))
        opt = 'binary=%d gzip=%d' % (binary, gz)
        if chk.rng.random() < .3:
            opt += ' indent=%d' % chk.rng.randint(0, 9)
        if chk.rng.random() < .2:
            opt += ' ichar=tab'
        meta[str(i)] = (calls, binary, gz, opt)
        wcases.append((str(i), ribgen.case(i, 'write ' + opt, calls), '\n'.join(ribgen.text(c) for c in calls)))
    wres = ribrun.run_batch(chk, wcases, 'write')
    pcases = []
    for i, (calls, binary, gz, opt) in meta.items():
        r = wres.get(i)
        if not r:
            continue
        er = ribgen.errors_of(r['log'])
        if er:
            chk.violation('write-error', 'case %s: writer refused a call: %s' % (i, er[0]), '\n'.join(map(ribgen.text, calls)))
            continue
        nproc = sum(1 for c in calls if c.name == 'Procedural')
        if r['live'] != 0:
            chk.violation('proc-free', 'case %s: procedural data freed %d times for %d procedurals' % (i, nproc - r['live'], nproc),
                          '\n'.join(map(ribgen.text, calls)))
        if gz and r['rib'] and r['rib'][:2] != b'\x1f\x8b':
            chk.violation('not-gzip', 'case %s: gzip requested, no gzip header' % i, None)
        pcases.append((i, ribgen.case(i, 'parse chunk=%d' % chk.rng.choice([1, 7, 255, 256, 4096]), data=r['rib']), wcases[int(i)][2]))
    pres = ribrun.run_batch(chk, pcases, 'parse')
    reqs = set()
    for i, (calls, binary, gz, opt) in meta.items():
        r = pres.get(i)
        if not r:
            continue
        sent = [ribgen.text(c) for c in calls]
        got = ribgen.calls_of(r['log'])
        er = ribgen.errors_of(r['log'])
        payload = '%s\n--sent--\n%s\n--got--\n%s\n--errors--\n%s\n--rib--\n%r' % (opt, '\n'.join(sent), '\n'.join(got), '\n'.join(er), wres[i]['rib'])
        chk.eval((opt + '\n'.join(sent)).encode() if got else None)
        chk.count('requests_delivered', len(got))
        chk.count('ascii' if not binary else 'binary')
        if gz:
            chk.count('gzip')
        for c in calls:
            reqs.add(c.name)
        # comments are delivered as soon as they are scanned, so their position
        # relative to requests is not part of the property; their order is
        def sp(ls):
            return [l for l in ls if not l.startswith('ArchiveRecord')], [l for l in ls if l.startswith('ArchiveRecord')]
        (s1, s2), (g1, g2) = sp(sent), sp(got)
        if er and 'mpoint' in MP(calls) and 'invalid token "' in er[0] and ' invalid' in er[0]:
            chk.violation('mpoint-inline-declaration', 'case %s: parser reported: %s' % (i, er[0]), payload)
        elif er:
            chk.violation('read-error', 'case %s: parser reported: %s' % (i, er[0]), payload)
        elif len(s1) != len(g1) or len(s2) != len(g2):
            chk.violation('count', 'case %s (%s): sent %d requests, %d came back' % (i, opt, len(sent), len(got)), payload)
        else:
            for a, b in list(zip(s1, g1)) + list(zip(s2, g2)):
                why = same(a, b, not binary, chk)
                if why:
                    key = why if why.startswith('ascii-') else 'differs:%s:%s' % (a.split('\t')[0], why)
                    chk.violation(key, 'case %s (%s): sent %s got %s' % (i, opt, a[:200], b[:200]), payload)
        if r['live'] is not None and len(chk.samples) < 3:
            chk.sample({'options': opt, 'sent': sent[:4], 'rib': repr(wres[i]['rib'][:120])})
    chk.counters['distinct_requests'] = len(reqs)
    chk.assumptions = ['ASCII floats compared with relative tolerance 2e-6 (the format is decimal text); inf/nan only in binary',
                       'comments compared in order among themselves', 'three colour components']
    return chk.finish()
