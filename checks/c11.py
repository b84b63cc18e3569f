"""C11: built-in shading functions return what the language defines."""
import collections
import numpy as np
import vlib, render, slops
from c10 import SCENE, values, N, displays

OUT = [('f%d' % i, 'f') for i in range(6)] + [('c0', 'c'), ('c1', 'c'), ('p0', 'p'), ('p1', 'p'), ('v0', 'v'), ('v1', 'v'), ('n0', 'n'), ('n1', 'n')]
OPS = slops.ops()
BY = collections.defaultdict(list)
for o in OPS:
    BY[o[1]].append(o)


class Prog:
    def __init__(self, r, name, queue):
        self.name = name
        self.items = []
        body = ['is = s; it = t;']
        for n, ty in OUT:
            if not queue[ty]:
                queue[ty] = BY[ty][:]
                r.shuffle(queue[ty])
            op = queue[ty].pop()
            g = slops.Gen(r)
            g.n = 100 * len(self.items)
            text, f = op[2](g)
            st = '%s = %s;' % (n, text) if isinstance(text, str) else '%s; %s = %s;' % (text[1], n, text[0])
            k = 1 if op[0].startswith('D_') else r.random()          # differences need the whole grid
            cond = lambda e: True
            if k < .2:
                st, cond = 'if (s > t) { %s }' % st, lambda e: e['s'] > e['t']
            elif k < .3:
                st, cond = 'if (s * 3 < 1) { } else { %s }' % st, lambda e: e['s'] * 3 >= 1
            elif k < .35:
                st = '{ float q; for (q = 0; q < 2; q += 1) { %s } }' % st if isinstance(text, str) else st
            body += g.decl + [st]
            self.items.append((n, ty, op[0], f, cond, text if isinstance(text, str) else text[1]))
        self.text = 'surface %s(%soutput varying float is = 0; output varying float it = 0;)\n{\n\t%s\n\tCi = Cs; Oi = Os;\n}\n' % (
            name, ''.join('output varying %s %s = 0; ' % (slops.NAME[t], n) for n, t in OUT), '\n\t'.join(body))


def judge(chk, p, L, rib, seen):
    V = {n: values(L, n, t) for n, t in OUT + [('is', 'f'), ('it', 'f')]}
    for n, v in V.items():
        if v is None:
            chk.violation('no-output', 'output %s of the shader is not delivered' % n, p.text + rib)
            return 0
    judged = 0
    for n, ty, op, f, cond, text in p.items:
        done = {}
        for y in range(N):
            for x in range(N):
                e = {'s': float(V['is'][y, x]), 't': float(V['it'][y, x])}
                k = e['s'], e['t']
                if k not in done:
                    if abs(e['s'] - e['t']) < 1e-4 or abs(e['s'] * 3 - 1) < 1e-4:
                        done[k] = None
                    elif cond(e):
                        done[k] = slops.value(f, e)
                    else:
                        done[k] = 0. if ty == 'f' else (0.,) * 3
                want = done[k]
                if want is None:
                    continue
                got = V[n][y, x]
                got = (float(got),) if ty == 'f' else tuple(map(float, got))
                want = want if isinstance(want, tuple) else (float(want),)
                judged += 1
                seen[op] += 1
                if not all(abs(a - b) <= 1e-3 * (1 + abs(b)) for a, b in zip(got, want)):
                    chk.violation('value:' + op, '%s at s=%r t=%r is %s, the language says %s' % (text, e['s'], e['t'], got, want), p.text + rib)
                    break
            else:
                continue
            break
    return judged


def main():
    chk = vlib.Check('C11', rule='A case is one shader with fourteen random calls of built-in functions, run over a grid of points; every result at every pixel is compared with an independent definition at the observed s and t. '
                     'Distinct by shader text; non-trivial when at least 200 results were judged.')
    vlib.build(['verif_render'])
    env = render.Env(chk)
    r = chk.rng
    n = chk.n(900, 12000)
    queue = collections.defaultdict(list)
    seen = collections.Counter()
    done = 0
    while done < n:
        k = min(300, n - done)
        progs = [Prog(r, 'b%d' % (done + i), queue) for i in range(k)]
        jobs = []
        res = env.compile({p.name: p.text for p in progs})
        for p in progs:
            geom = r.choice(['Patch "bilinear" "P" [-1.2 -1.2 2  1.2 -1.2 2  -1.2 1.2 2  1.2 1.2 2]', 'Polygon "P" [-1.2 -1.2 2  1.2 -1.2 2  1.2 1.2 2  -1.2 1.2 2] "st" [0 0 1 0 1 1 0 1]'])
            rib = SCENE % dict(n=N, grid=r.choice([9, 32, 256]), b=r.choice([16, 8, 5]), disp=displays(OUT + [('is', 'f'), ('it', 'f')]),
                               rate=r.choice(['1', '2', '.5']), name=p.name, args='', geom=geom)
            jobs.append((p, rib))
        for (p, rib), o in zip(jobs, vlib.pmap(lambda j: env.render(j[1]) if res[j[0].name][1] else None, jobs)):
            if o is None:
                continue
            if not chk.sanitize(o[0], 'running ' + p.name, p.text + rib):
                continue
            msg = env.messages(o[0])
            if msg:
                chk.violation('message', 'unexpected message: %s' % msg[:2], p.text + rib)
                continue
            j = judge(chk, p, o[1], rib, seen)
            chk.count('results_judged', j)
            chk.eval(p.text.encode() if j > 200 else None)
        done += k
    missing = [o[0] for o in OPS if not seen[o[0]]]
    chk.count('functions_judged', len(OPS) - len(missing))
    chk.count('functions_not_judged', len(missing))
    chk.sample({'shader': progs[0].text[:1500], 'judged_per_function': dict(seen)})
    if missing and not chk.viol:
        print('not judged:', missing)
    env.close()
    return chk.finish()
