"""C16: the C interface and the ri2rib library."""
import os, shutil
import vlib, ribgen, ribrun
from ribgen import Param, Call, BYNAME, ICLASS, TYPES
from rimodel import Model, ArgGen, Reject, BEGINS


class CGen(ArgGen):
    def token(self, q, known):
        """a C token for the parameter: its plain name when declared, or an inline declaration"""
        r = self.r
        if known.get(q.name) == (q.iclass, q.type, q.n) and r.random() < .7:
            return q.name
        ic = '' if q.iclass == 'uniform' and r.random() < .4 else q.iclass + r.choice([' ', '  ', '\t'])
        ar = '' if q.n == 1 and r.random() < .9 else r.choice(['[%d]', ' [%d]', '[ %d ]', ' [ %d]']) % q.n
        return (r.choice(['', '', ' ']) + ic + q.type + ar + r.choice([' ', '  ', '\t'])).encode() + q.name + r.choice([b'', b'', b'', b' ', b'\t '])


def stream(r, i, names, relaxed, length, bads=None):
    """valid calls only, with C tokens"""
    m, g = Model(relaxed), CGen(r, special=False, maxlen=5)
    known = dict(g.STD)
    prog, objs, lights = [], [], []
    nh = depth = 0
    for j in range(length):
        k = r.random()
        if k < .2:
            nm = r.choice(BEGINS)
        elif k < .38 and len(m.scopes) > 1:
            nm = m.scopes[-1] + 'End'
        elif k < .5:
            nm = r.choice(['ObjectInstance', 'Illuminate', 'LightSource', 'ObjectBegin', 'AreaLightSource', 'Declare', 'MotionBegin', 'Basis', 'PatchMesh', 'Curves'])
        else:
            nm = names[(i * 11 + j) % len(names)]
        if nm in ('Basis', 'AttributeBegin') and m.scopes[-1] == 'Motion':
            continue
        if nm == 'Geometry' and r.random() < .5:
            continue
        c = g.vcall(nm, m)
        scope = list(m.scopes)
        if nm == 'ObjectBegin' or nm in ('LightSource', 'AreaLightSource'):
            nh += 1
            h = b'h%d' % nh
            c.args[0 if nm == 'ObjectBegin' else 1] = h
        elif nm == 'ObjectInstance':
            if not objs:
                continue
            c.args[0] = r.choice(objs)[0]
        elif nm == 'Illuminate':
            if not lights:
                continue
            c.args[0] = r.choice(lights)[0]
        if c.plist:
            seen = set()
            pl = []
            for q in c.plist:
                if q.name in seen:
                    continue
                seen.add(q.name)
                pl.append(q)
            c.plist = pl
        if any(isinstance(v, float) and v != v for v in c.args):
            continue
        try:
            if m.check(c):
                continue
            d = m.counts(c) if BYNAME[nm].plist else {}
            if any(len(q.data) != d[q.iclass] * ribgen.NCOMP[q.type] * q.n for q in c.plist or []):
                continue
            m.step(c)
        except Reject:
            continue
        for q in c.plist or []:
            q.tok = g.token(q, known)
        if bads is not None and c.plist and not nm.endswith('Begin') and 'LightSource' not in nm and r.random() < .06:
            # the same call with a token nobody declared: reported, and nothing else happens
            b = Call(nm, c.args, [Param(q.iclass, q.type, q.n, q.name, q.kind, q.data, q.tok) for q in c.plist])
            r.choice(b.plist).tok = r.choice([b'undeclared_zz', b'uniform undeclared_zz', b'undeclared_zz float', b'varying float[] undeclared_zz', b'uniform float[-2] undeclared_zz', b'', b'uniform float a b'])
            bads[len(prog)] = b.plist
            prog.append(b)
        if nm == 'Declare':
            known[c.args[0]] = g.declared[c.args[0]]
        if nm in ('FrameBegin', 'WorldBegin'):
            depth += 1
        if nm in ('FrameEnd', 'WorldEnd'):
            depth = max(0, depth - 1)
            objs = [o for o in objs if o[1] <= depth]
            lights = [o for o in lights if o[1] <= depth]
        elif nm == 'ObjectBegin':
            objs.append((h, depth))
        elif nm in ('LightSource', 'AreaLightSource'):
            lights.append((h, depth))
        prog.append(c)
    return prog, m


HANDLE = {'ObjectBegin': 1, 'ObjectInstance': 1, 'LightSource': 2, 'AreaLightSource': 2, 'Illuminate': 1}


def names_ok(sent, got, fwd, back):
    """rename the handle in got if it is used consistently"""
    a, b = sent.split('\t'), got.split('\t')
    k = HANDLE.get(a[0])
    if k and len(a) == len(b) and a[0] == b[0]:
        if a[0] in ('ObjectBegin', 'LightSource', 'AreaLightSource'):
            fwd[a[k]] = b[k]
        if fwd.get(a[k]) == b[k]:
            b[k] = a[k]
    return '\t'.join(b)


def compare(chk, key, i, sent, got, payload):
    fwd = {}
    for n in range(max(len(sent), len(got))):
        if n >= len(sent) or n >= len(got):
            chk.violation(key + ':count', 'case %s: %d calls made, %d arrived' % (i, len(sent), len(got)), payload)
            return False
        g = names_ok(sent[n], got[n], fwd, None)
        if g != sent[n]:
            chk.violation(key + ':' + sent[n].split('\t')[0], 'case %s call %d: %s arrived as %s' % (i, n, sent[n][:300], g[:300]), payload)
            return False
    live = list(fwd.values())
    if len(set(live)) < len(live):
        chk.count('handles_reused')
    return True


def main():
    chk = vlib.Check('C16', rule='A case is a random stream of valid interface calls made through the C functions, in the array or the variable argument form, with declared or inline declared tokens and live object and light handles; '
                     'what reaches the C++ interface behind it, or is read back from the RIB file libri2rib wrote (one or two interleaved contexts, each output format), must be the calls made. Distinct by text.')
    vlib.build(['h_rib', 'h_ri2rib'])
    r = chk.rng
    names = [p.name for p in ribgen.PROCS]
    cases, meta = [], {}
    n = chk.n(3000, 40000)
    for i in range(n):
        bads = {}
        prog, m = stream(r, i, names, r.random() < .5, r.randint(5, 40), bads)
        va = r.randint(0, 1)
        cases.append((str(i), ribgen.case(i, 'capi varargs=%d' % va, prog, ctok=True), '\n'.join(ribgen.text(c, True) for c in prog)))
        meta[str(i)] = (prog, va, bads)
    res = ribrun.run_batch(chk, cases, 'capi')
    for (i, (prog, va, bads)), cs in zip(meta.items(), cases):
        x = res.get(i)
        if not x:
            continue
        per = []
        for l in x['log']:
            if l.startswith('> '):
                per.append([])
            elif per:
                per[-1].append(l)
        for k in bads:
            if k < len(per) and (not ribgen.errors_of(per[k]) or ribgen.calls_of(per[k])):
                chk.violation('capi:badtoken', 'case %s: %s with a bad token was not reported and dropped' % (i, prog[k].name), cs[2])
            chk.count('bad_tokens')
        errs = [(c.name, e) for k, (c, o) in enumerate(zip(prog, per)) for e in ribgen.errors_of(o) if k not in bads]
        if errs:
            chk.violation('capi:error:' + errs[0][0], 'case %s: valid %s reported %s' % (i, errs[0][0], errs[0][1][:200]), cs[2])
            continue
        if compare(chk, 'capi:%s' % ('varargs' if va else 'array'), i, [ribgen.text(c) for k, c in enumerate(prog) if k not in bads], ribgen.calls_of([l for k, o in enumerate(per) if k not in bads for l in o]), cs[2]):
            chk.eval(cs[2].encode())
            chk.count('calls_varargs' if va else 'calls_array', len(prog))
            chk.count('tokens_plain', sum(q.tok == q.name for c in prog for q in c.plist or []))
            chk.count('tokens_inline', sum(q.tok != q.name for c in prog for q in c.plist or []))
        if x['live']:
            chk.violation('capi:procdata', 'case %s: %d blocks of procedural data not freed' % (i, x['live']), cs[2])
    if not chk.viol:
        ri2rib(chk, r, names)
    chk.assumptions = ['calls made are valid: scopes, ranges and array lengths as the interface description (spec/ri.xml) has them', 'handles are used within the frame or world which made them']
    return chk.finish()


def ri2rib(chk, r, names):
    d = vlib.scratch(chk.prop)
    exe = vlib.binpath('harness/h_ri2rib')
    n = chk.n(600, 6000)
    jobs = []
    for i in range(n):
        progs = []
        for k in range(r.choice([1, 1, 2, 3])):
            p, m = stream(r, i, names, False, r.randint(3, 25))
            p = [c for c in p if c.name not in ('ReadArchive', 'Procedural', 'ErrorHandler')]
            progs.append(p)
        opt = []
        binary, gz = r.random() < .6, r.random() < .5
        opt.append(b'O Type ' + (b'Binary' if binary else b'Ascii'))
        opt.append(b'O Compression ' + (b'Gzip' if gz else b'None'))
        opt.append(b'I Type ' + r.choice([b'None', b'Space', b'Tab']))
        opt.append(b'I Size %d' % r.choice([0, 1, 4]))
        jobs.append((i, progs, binary, gz, opt, r.randint(0, 1 << 30)))

    def go(j):
        import random
        i, progs, binary, gz, opt, sd = j
        rr = random.Random(sd)
        w = os.path.join(d, str(i))
        os.makedirs(w)
        lines = [o.decode() for o in opt]
        for k in range(len(progs)):
            lines.append('B %d %s/%d.rib' % (k, w, k))
        at = [0] * len(progs)
        while any(a < len(p) for a, p in zip(at, progs)):
            k = rr.choice([k for k in range(len(progs)) if at[k] < len(progs[k])])
            lines.append('X %d' % k)
            for _ in range(rr.randint(1, 6)):
                if at[k] < len(progs[k]):
                    lines.append('C ' + ribgen.text(progs[k][at[k]], True))
                    at[k] += 1
        order = list(range(len(progs)))
        rr.shuffle(order)
        for k in order:
            lines.append('E %d' % k)
        x = vlib.run([exe, str(sd & 1)], '\n'.join(lines).encode() + b'\n', timeout=60, cwd=w)
        out = []
        for k in range(len(progs)):
            f = '%s/%d.rib' % (w, k)
            out.append(open(f, 'rb').read() if os.path.exists(f) else None)
        shutil.rmtree(w, ignore_errors=True)
        return x, out, '\n'.join(lines)

    cases, meta = [], {}
    for j, (x, out, pay) in zip(jobs, vlib.pmap(go, jobs)):
        i, progs, binary, gz, opt, sd = j
        chk.sanitize(x, 'ri2rib case %d' % i, pay)
        if x.rc or x.timeout:
            chk.violation('ri2rib:exit', 'case %d: exit %s %s' % (i, x.rc, x.err[-300:]), pay)
            continue
        if x.err.strip():
            chk.violation('ri2rib:message', 'case %d: valid calls gave %s' % (i, x.err[:300].decode('utf-8', 'replace')), pay)
        for k, data in enumerate(out):
            if data is None or gz != (data[:2] == b'\x1f\x8b'):
                chk.violation('ri2rib:file', 'case %d context %d: %s' % (i, k, 'no file' if data is None else 'compression is not as asked for'), pay)
                continue
            if not binary and not gz and any(c >= 128 for c in data):
                chk.violation('ri2rib:ascii', 'case %d context %d: binary codes in ASCII output' % (i, k), pay)
            key = '%d.%d' % (i, k)
            cases.append((key, ribgen.case(key, 'parse', data=data), pay))
            meta[key] = (progs[k], binary, pay)
    res = ribrun.run_batch(chk, cases, 'ri2rib')
    for key, (prog, binary, pay) in meta.items():
        x = res.get(key)
        if not x:
            continue
        es = ribgen.errors_of(x['log'])
        if es:
            chk.violation('ri2rib:unreadable', 'case %s: %s' % (key, es[0][:200]), pay)
            continue
        import c01
        sent = [ribgen.text(c) for c in prog if c.name != 'ArchiveRecord']
        got = [l for l in ribgen.calls_of(x['log']) if not l.startswith('ArchiveRecord')]
        if not binary:
            # decimal digits are lossy: take what is close as equal
            fwd = {}
            if len(sent) == len(got):
                got = [names_ok(s, g, fwd, None) for s, g in zip(sent, got)]
                got = [s if c01.same(s, g, True, chk) is None else g for s, g in zip(sent, got)]
        if compare(chk, 'ri2rib', key, sent, got, pay):
            chk.eval(pay.encode() + key.encode())
            chk.count('ri2rib_calls', len(sent))
            chk.count('ri2rib_binary' if binary else 'ri2rib_ascii')
    shutil.rmtree(d, ignore_errors=True)
