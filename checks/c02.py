"""C02: every legal encoding of a request stream reads as the same calls."""
import vlib, ribgen, ribrun, ribenc, c01
from ribgen import Gen, Call


def comment_call(c):
    if c[:1] == b'#':
        return Call('ArchiveRecord', [b'structure', c[1:]])
    return Call('ArchiveRecord', [b'comment', c])


def main():
    chk = vlib.Check('C02', rule='A case is a random call sequence written by an independent encoder that picks at random among the '
                     'legal encodings of each token and is read by the real parser in pieces of random size; distinct by byte stream, '
                     'non-trivial when at least one request was delivered.')
    vlib.build(['h_rib'])
    n = chk.n(4000, 60000)
    names = [p.name for p in ribgen.PROCS]
    cases, meta = [], {}
    kinds = {}
    for i in range(n):
        mode = ('ascii', 'binary', 'mixed')[i % 3]
        g = Gen(chk.rng, special=mode == 'binary', strings=chk.rng.choice(['safe', 'any']) if mode != 'ascii' else 'safe', mpoint=True)
        e = ribenc.Enc(chk.rng, mode)
        expect = []
        if chk.rng.random() < .3:
            e.word(b'version')
            e.word(b'3.03')
        decl = dict(Gen.STD)
        for j in range(chk.rng.randint(1, 14)):
            c = g.call(names[(i * 5 + j) % len(names)] if j % 2 == 0 else None)
            expect.append(ribgen.text(e.call(c, decl)))
            if c.name == 'Declare':
                decl[c.args[0]] = g.declared[c.args[0]]
        gz = chk.rng.random() < .15
        data = e.finish(gz, chk.rng.random() < .15)
        for k, v in e.kinds.items():
            kinds[k] = kinds.get(k, 0) + v
        ch = chk.rng.choice([1, 2, 7, 64, 255, 256, 257, 4096])
        meta[str(i)] = (expect, [ribgen.text(comment_call(c)) for c in e.comments], data, mode, ch)
        cases.append((str(i), ribgen.case(i, 'parse chunk=%d' % ch, data=data), repr(data)))
    res = ribrun.run_batch(chk, cases, 'parse')
    for i, (expect, comm, data, mode, ch) in meta.items():
        r = res.get(i)
        if not r:
            continue
        got = ribgen.calls_of(r['log'])
        er = ribgen.errors_of(r['log'])
        payload = '%s chunk=%d\n--expected--\n%s\n--got--\n%s\n--errors--\n%s\n--rib--\n%r' % (mode, ch, '\n'.join(expect), '\n'.join(got), '\n'.join(er), data)
        chk.eval(data if got else None)
        chk.count('requests_delivered', len(got))
        g1 = [l for l in got if not l.startswith('ArchiveRecord')]
        g2 = [l for l in got if l.startswith('ArchiveRecord')]
        if er:
            chk.violation('read-error', 'case %s: legal stream refused: %s' % (i, er[0]), payload)
        elif len(g1) != len(expect) or len(g2) != len(comm):
            chk.violation('count', 'case %s (%s): encoded %d requests and %d comments, got %d and %d' % (i, mode, len(expect), len(comm), len(g1), len(g2)), payload)
        else:
            for a, b in list(zip(expect, g1)) + list(zip(comm, g2)):
                why = c01.same(a, b, mode != 'binary', chk)
                if why:
                    chk.violation('differs:%s:%s' % (a.split('\t')[0], why), 'case %s (%s): encoded %s got %s' % (i, mode, a[:200], b[:200]), payload)
        if int(i) < 3:
            chk.sample({'mode': mode, 'bytes': repr(data[:150]), 'calls': got[:3]})
    chk.counters['token_encodings'] = kinds
    chk.assumptions = ['ASCII numbers compared with relative tolerance 2e-6', 'binary integers shorter than four bytes are unsigned, as the reader documents',
                       'backslash escapes other than the escaped blank are not part of the encodings exercised']
    return chk.finish()
