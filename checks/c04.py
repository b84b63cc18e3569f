"""C04: conditionals, inline archives and object instances expand as specified."""
import vlib, ribgen, ribrun, ribenc, c01
from ribgen import Gen, Call

STRUCT = {'ArchiveBegin', 'ArchiveEnd', 'ReadArchive', 'ObjectBegin', 'ObjectEnd', 'ObjectInstance', 'IfBegin', 'ElseIf', 'Else', 'IfEnd'}
PLAIN = [p.name for p in ribgen.PROCS if p.name not in STRUCT]


class Budget(Exception):
    pass


class Model:
    """Reference expansion. Inline archives and objects are recorded verbatim
    and re-interpreted when read; conditions are evaluated when executed."""
    def __init__(self, cond=True):
        self.cond = cond
        self.arch, self.obj = {}, {}
        self.rec = None             # (kind, name, list, depth)
        self.ifs = []               # (outer_active, taken, active)
        self.out = []
        self.errors = 0
        self.left = 3000

    def active(self):
        return not self.ifs or self.ifs[-1][2]

    def run(self, calls):
        for c in calls:
            self.left -= 1
            if self.left < 0:
                raise Budget()
            self.one(c)

    def one(self, c):
        n = c.name
        if self.rec is not None:
            kind, store, name, body = self.rec[:4]
            if kind == 'archive':
                if n == 'ArchiveBegin':
                    self.rec[4] += 1
                elif n == 'ArchiveEnd':
                    if self.rec[4] == 0:
                        self.rec = None
                        return
                    self.rec[4] -= 1
            else:
                if n == 'ArchiveBegin':
                    self.rec[4] += 1
                elif n == 'ArchiveEnd':
                    self.rec[4] -= 1
                elif n == 'ObjectEnd':
                    self.rec = None
                    return
            if n != 'ArchiveRecord':
                body.append(c)
            return
        if n in ('IfBegin', 'ElseIf', 'Else', 'IfEnd'):
            if not self.cond:
                self.out.append(c)
                return
            if n == 'IfBegin':
                a = self.active()
                t = a and c.args[0][:1] == b'T'
                self.ifs.append([a, t, t])
            elif n == 'IfEnd':
                if self.ifs:
                    self.ifs.pop()
            elif self.ifs:
                f = self.ifs[-1]
                if not f[0]:
                    return
                t = not f[1] and (n == 'Else' or c.args[0][:1] == b'T')
                f[2] = t
                f[1] = f[1] or t
            return
        if not self.active():
            return
        if n == 'ArchiveBegin':
            body = []
            self.arch[c.args[0]] = body
            self.rec = ['archive', self.arch, c.args[0], body, 0]
        elif n == 'ObjectBegin':
            body = []
            self.obj[c.args[0]] = body
            self.rec = ['object', self.obj, c.args[0], body, 0]
        elif n == 'ReadArchive':
            if c.args[0] in self.arch:
                self.run(list(self.arch[c.args[0]]))
            else:
                self.out.append(c)
        elif n == 'ObjectInstance':
            if c.args[0] in self.obj:
                self.run(list(self.obj[c.args[0]]))
            else:
                self.errors += 1
        elif n in ('ArchiveEnd', 'ObjectEnd'):
            pass
        else:
            self.out.append(c)


class Prog:
    def __init__(self, r, g):
        self.r, self.g = r, g
        self.left = r.randint(5, 40)
        self.names = [b'a', b'b', b'c', b'obj']
        self.procs = 0

    def plain(self):
        n = self.r.choice(PLAIN)
        if n == 'Procedural':
            self.procs += 1
        return self.g.call(n)

    def block(self, depth, where, defining=()):
        r = self.r
        out = []
        for _ in range(r.randint(0, 5)):
            if self.left <= 0:
                break
            self.left -= 1
            k = r.random()
            if k < .45 or depth > 5:
                out.append(self.plain())
            elif k < .65:
                out.append(Call('IfBegin', [r.choice([b'T1', b'F1', b'T2', b'F0'])]))
                out += self.block(depth + 1, where, defining)
                for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                    out.append(Call('ElseIf', [r.choice([b'T1', b'F1', b'T3'])]))
                    out += self.block(depth + 1, where, defining)
                if r.random() < .6:
                    out.append(Call('Else'))
                    out += self.block(depth + 1, where, defining)
                out.append(Call('IfEnd'))
            elif k < .76 and where != 'object':
                nm = r.choice(self.names)
                out.append(Call('ArchiveBegin', [nm], []))
                out += self.block(depth + 1, 'archive', defining + (nm,))
                out.append(Call('ArchiveEnd'))
            elif k < .84 and where != 'object':
                nm = r.choice(self.names)
                out.append(Call('ObjectBegin', [nm]))
                out += self.block(depth + 1, 'object', defining + (b'o' + nm,))
                out.append(Call('ObjectEnd'))
            elif k < .94:
                out.append(Call('ReadArchive', [r.choice(self.names + [b'on-disk'])], []))
            else:
                out.append(Call('ObjectInstance', [r.choice(self.names + [b'nope'])]))
        return out


def main():
    chk = vlib.Check('C04', rule='A case is a random program of nested conditionals, inline archive and object definitions (also inside each other, '
                     'redefined, and read back from within conditionals) around random requests, sent through the filter as calls and as RIB; '
                     'distinct by program text, non-trivial when it contains a conditional or replay.')
    vlib.build(['h_rib'])
    r = chk.rng
    n = chk.n(4000, 50000)
    cases, meta = [], {}
    i = 0
    while i < n:
        g = Gen(r, special=False, maxlen=5)
        cond = r.random() < .9
        p = Prog(r, g)
        prog = p.block(0, 'top')
        while p.left > 0 and r.random() < .8:
            prog += p.block(0, 'top')
        if r.random() < .1:
            # stray ends at top level are ignored
            prog.insert(r.randint(0, len(prog)), Call(r.choice(['IfEnd', 'Else']))) if False else None
        m = Model(cond)
        try:
            m.run(prog)
        except (Budget, RecursionError):
            continue
        # every definition must be complete at the end
        rib = i % 2 == 1
        f = 'filters=renderutil' + ('' if cond else ':nocond')
        if rib:
            e = ribenc.Enc(r, r.choice(['binary', 'mixed']))
            prog2 = [e.call(c, dict(Gen.STD)) for c in prog]
            e2 = e.finish()
            m = Model(cond)
            try:
                m.run(prog2)
            except (Budget, RecursionError):
                continue
            cases.append((str(i), ribgen.case(i, 'parse chunk=256 ' + f, data=e2), '\n'.join(map(ribgen.text, prog2))))
        else:
            prog2 = prog
            cases.append((str(i), ribgen.case(i, 'calls ' + f, prog), '\n'.join(map(ribgen.text, prog))))
        meta[str(i)] = (prog2, m, rib)
        i += 1
    res = ribrun.run_batch(chk, cases, 'expand')
    for i, (prog, m, rib) in meta.items():
        x = res.get(i)
        if not x:
            continue
        got = [l for l in ribgen.calls_of(x['log']) if not l.startswith('ArchiveRecord')]
        er = ribgen.errors_of(x['log'])
        exp = [ribgen.text(c) for c in m.out]
        payload = '--program--\n%s\n--expected--\n%s\n--got--\n%s\n--errors--\n%s' % ('\n'.join(map(ribgen.text, prog)), '\n'.join(exp), '\n'.join(got), '\n'.join(er))
        chk.eval('\n'.join(map(ribgen.text, prog)).encode() if any(c.name in STRUCT for c in prog) else None)
        chk.count('requests_delivered', len(got))
        chk.count('conditionals', sum(c.name == 'IfBegin' for c in prog))
        chk.count('archives', sum(c.name == 'ArchiveBegin' for c in prog))
        chk.count('objects', sum(c.name == 'ObjectBegin' for c in prog))
        if len(er) != m.errors:
            chk.violation('errors', 'case %s: %d errors expected, %d reported: %s' % (i, m.errors, len(er), er[:1]), payload)
        elif len(exp) != len(got):
            chk.violation('count', 'case %s: %d requests expected, %d delivered' % (i, len(exp), len(got)), payload)
        else:
            for a, b in zip(exp, got):
                why = c01.same(a, b, rib, chk)
                if why:
                    chk.violation('differs:' + why, 'case %s: expected %s got %s' % (i, a[:200], b[:200]), payload)
                    break
        if x['live'] is not None and x['live'] < 0:
            chk.violation('proc-free', 'case %s: procedural data freed %d times too often' % (i, -x['live']), payload)
        if int(i) < 2:
            chk.sample({'program': [ribgen.text(c)[:80] for c in prog[:12]], 'delivered': [l[:80] for l in got[:6]]})
    chk.assumptions = ['programs that read an archive or object from within itself without end are not generated (unbounded by definition)',
                       'objects do not contain archive or object definitions']
    return chk.finish()
