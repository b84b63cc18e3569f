"""C05: invalid requests are rejected, valid ones passed on unchanged."""
import vlib, ribgen, ribrun
from rimodel import Model, ArgGen, Reject, BEGINS

def main():
    chk = vlib.Check('C05', rule='A case is a random request sequence with nested scopes, arguments drawn on and around every documented bound, array and '
                     'parameter lengths right or off by little, sent through the validation filter as calls or as RIB; distinct by text, non-trivial when '
                     'at least one request was rejected and one accepted.')
    vlib.build(['h_rib'])
    r = chk.rng
    names = [p.name for p in ribgen.PROCS]
    cases, meta = [], {}
    n = chk.n(4000, 50000)
    why_count = {}
    for i in range(n):
        relaxed = r.random() < .15
        gm, g = Model(relaxed), ArgGen(r, special=False, maxlen=5)
        prog, verdict = [], []
        for j in range(r.randint(5, 40)):
            k = r.random()
            if k < .22:
                nm = r.choice(BEGINS)
            elif k < .42 and len(gm.scopes) > 1:
                nm = gm.scopes[-1] + 'End' if r.random() < .85 else r.choice(BEGINS)[:-5] + 'End'
            else:
                nm = names[(i * 11 + j) % len(names)]
            if nm == 'Basis' and gm.scopes[-1] in ('Motion',):
                continue
            c = g.vcall(nm, gm)
            try:
                w = gm.check(c)
                gm.step(c)
                v = ('ok', w)
            except Reject as e:
                v = ('reject', str(e))
            prog.append(c)
            verdict.append(v)
        f = 'filters=validate' + (':relaxed' if relaxed else '')
        cases.append((str(i), ribgen.case(i, 'calls ' + f, prog), '\n'.join('%s %s' % (v, ribgen.text(c)) for c, v in zip(prog, verdict))))
        meta[str(i)] = (prog, verdict)
    res = ribrun.run_batch(chk, cases, 'validate')
    for i, (prog, verdict) in meta.items():
        x = res.get(i)
        if not x:
            continue
        per = []
        for l in x['log']:
            if l.startswith('> '):
                per.append([])
            elif per:
                per[-1].append(l)
        payload = '\n'.join('%s %s\n     %s' % (v, ribgen.text(c), o) for c, v, o in zip(prog, verdict, per))
        if len(per) != len(prog):
            chk.violation('lost', 'case %s: %d calls made, %d seen' % (i, len(prog), len(per)), payload)
            continue
        acc = rej = 0
        for c, v, o in zip(prog, verdict, per):
            got = [l[2:] for l in o if l.startswith('L ')]
            exc = [l for l in o if l.startswith('X ')]
            warns = [l for l in o if l.startswith('E ')]
            if v[0] == 'ok':
                acc += 1
                if exc or got != [ribgen.text(c)]:
                    chk.violation('valid-refused:' + c.name, 'case %s: valid %s not passed on unchanged (%s)' %
                                  (i, c.name, ribgen.errors_of(o)[:1]), payload)
                elif bool(v[1]) != bool(warns):
                    chk.violation('warning:' + c.name, 'case %s: %s over-long arrays: %d, warnings: %d' % (i, c.name, v[1], len(warns)), payload)
            else:
                rej += 1
                why = v[1].split(' ')[0]
                why_count[why] = why_count.get(why, 0) + 1
                if got:
                    chk.violation('invalid-passed:' + c.name, 'case %s: invalid %s (%s) was passed on' % (i, c.name, v[1]), payload)
                elif not exc:
                    chk.violation('silent:' + c.name, 'case %s: invalid %s (%s) dropped without report' % (i, c.name, v[1]), payload)
        chk.eval('\n'.join(map(ribgen.text, prog)).encode() if acc and rej else None)
        chk.count('accepted', acc)
        chk.count('rejected', rej)
        if int(i) < 2:
            chk.sample({'calls': ['%s: %s' % (v, ribgen.text(c)[:90]) for c, v in zip(prog, verdict)][:8]})
    chk.counters['rejections'] = why_count
    chk.assumptions = ['the interface description snapshot spec/ri.xml is the statement of which scopes, ranges and lengths are valid',
                       'Basis is not called between MotionBegin and MotionEnd']
    return chk.finish()
