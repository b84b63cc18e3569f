"""C10: shaders compute what the shading language defines."""
import numpy as np
import vlib, render, slref

N = 12
SCENE = '''Format %(n)d %(n)d 1
PixelSamples 1 1
PixelFilter "box" 1 1
Hider "hidden" "int jitter" [0]
Projection "orthographic"
ScreenWindow -1 1 -1 1
Option "limits" "integer gridsize" [%(grid)d]
Option "limits" "integer[2] bucketsize" [%(b)d %(b)d]
%(disp)s
WorldBegin
ShadingRate %(rate)s
ShadingInterpolation "constant"
Surface "%(name)s" %(args)s
%(geom)s
WorldEnd
'''


# legal shaders the compiler is known to get wrong, each with the key of its finding
KNOWN = [('load:conditional-against-mix', 'if (((s > .5) ? 1 : 2) < mix(s, 1, 2)) oa = 1;'),
         ('compile:conditional-operand', 'Ci = ((s > .5) ? Cs : Os) * 2;'),
         ('compile:conditional-overload', 'oa = (s > .5) ? t : mix(t, s, .5);')]


def displays(outs):
    L = ['Display "ci.log" "rec" "rgb" "float[4] quantize" [0 0 0 0]']
    for n, t in outs:
        L.append('Display "+%s.log" "rec" "varying %s %s" "float[4] quantize" [0 0 0 0]' % (n, slref.NAME[t], n))
    return '\n'.join(L)


def scene(r, p, outs=slref.OUTS):
    geom = r.choice(['Patch "bilinear" "P" [-1.2 -1.2 2  1.2 -1.2 2  -1.2 1.2 2  1.2 1.2 2]',
                     'Patch "bilinear" "P" [-1.2 -1.2 2  1.2 -1.2 2  -1.2 1.2 2  1.2 1.2 2] "s" [0 2 -1 1] "t" [0 -.5 1 2]',
                     'Polygon "P" [-1.2 -1.2 2  1.2 -1.2 2  1.2 1.2 2  -1.2 1.2 2] "st" [0 0 1 0 1.5 1 0 2]'])
    return SCENE % dict(n=N, grid=r.choice([9, 32, 256]), b=r.choice([16, 8, 5]), disp=displays(list(outs) + [('is', 'f'), ('it', 'f')]),
                        rate=r.choice(['1', '2', '4', '.5']), name=p.name, args=p.args(), geom=geom)


def values(L, n, ty):
    D = L.get(n)
    if not isinstance(D, list) or len(D) != 1:
        return None
    ch, cnt = D[0].assemble(N, N)
    a = np.stack([ch[k] for k, _ in D[0].fmt], -1)
    return a[..., 0] if ty == 'f' else a


def close(a, b, tol):
    if isinstance(a, tuple):
        return all(close(x, y, tol) for x, y in zip(a, b))
    return abs(a - b) <= tol * (1 + abs(b))


def judge(chk, p, L, rib, outs=slref.OUTS):
    """-> points judged"""
    V = {n: values(L, n, t) for n, t in list(outs) + [('is', 'f'), ('it', 'f')]}
    for n, v in V.items():
        if v is None:
            chk.violation('no-output', 'output %s of the shader is not delivered' % n, p.text + rib)
            return 0
    seen = {}
    judged = 0
    for y in range(N):
        for x in range(N):
            s, t = float(V['is'][y, x]), float(V['it'][y, x])
            if (s, t) not in seen:
                try:
                    a, b, c = [p.run(s, t, k) for k in (1, 0, 2)]
                    seen[s, t] = a, b, c
                except slref.Skip:
                    seen[s, t] = None
            if seen[s, t] is None:
                continue
            a, b, c = seen[s, t]
            for n, ty in outs:
                if not close(a[n], b[n], 1e-5) or not close(c[n], b[n], 2e-5):
                    continue
                got = V[n][y, x]
                got = float(got) if ty == 'f' else tuple(map(float, got))
                judged += 1
                if not close(got, b[n], 2e-4):
                    chk.violation('value', 'shader %s at s=%r t=%r: output %s is %s, the language says %s' % (p.name, s, t, n, got, b[n]), p.text + rib)
                    return judged
    chk.count('distinct_points', len(seen))
    chk.count('points_skipped', sum(1 for v in seen.values() if v is None))
    return judged


def main():
    chk = vlib.Check('C10', rule='A case is one random shader compiled by aqsl and run by the renderer over a grid of points with varying s and t; every output at every pixel is compared with an '
                     'independent scalar interpreter run at the observed s and t. Distinct by shader text; non-trivial when at least 20 outputs were judged.')
    vlib.build(['verif_render'])
    env = render.Env(chk)
    for k, (key, st) in enumerate(KNOWN):
        c = vlib.Check('C10')
        env.chk = c
        src = 'surface k%d(output varying float oa = 0;) { %s Oi = Os; }\n' % (k, st)
        res = env.compile({'k%d' % k: src})
        env.chk = chk
        o = env.render(SCENE % dict(n=N, grid=32, b=8, disp=displays([]), rate='1', name='k%d' % k, args='', geom='Sphere 1 -1 1 360'))
        if c.viol or env.messages(o[0]) or o[0].rc:
            chk.violation(key, 'a legal shader is not accepted: ' + (c.viol[0][1] if c.viol else str(env.messages(o[0]))), src)
    r = chk.rng
    n = chk.n(400, 6000)
    done = 0
    while done < n:
        k = min(400, n - done)
        progs = [slref.Program(r, 'p%d' % (done + i)) for i in range(k)]
        ribs = [scene(r, p) for p in progs]
        res = env.compile({p.name: p.text for p in progs})

        def go(j):
            p, rib = j
            return env.render(rib) if res[p.name][1] else None
        for p, rib, o in zip(progs, ribs, vlib.pmap(go, list(zip(progs, ribs)))):
            if o is None:
                continue
            if not chk.sanitize(o[0], 'running ' + p.name, p.text + rib):
                continue
            msg = env.messages(o[0])
            if msg:
                chk.violation('message', 'unexpected message: %s' % msg[:2], p.text + rib)
                continue
            j = judge(chk, p, o[1], rib)
            chk.count('outputs_judged', j)
            for q, c in p.g.stats.items():
                chk.count('construct_' + q, c)
            chk.eval(p.text.encode() if j > 20 else None)
        done += k
        chk.sample({'shader': progs[0].text[:1500]})
    env.close()
    return chk.finish()
