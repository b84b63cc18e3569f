"""Runs h_tex, the instrumented texture/image driver, over modes and seeds."""
import os, re, shutil
import vlib

BAD = 'allocator_may_return_null=1:max_allocation_size_mb=2048'


def run(chk, modes, need, target='h_tex'):
    vlib.build([target])
    d = vlib.scratch(chk.prop)
    jobs = []
    for mode, (per, quick, thorough) in modes.items():
        n = thorough if chk.thorough else quick
        for k in range(n):
            jobs.append((mode, chk.seed * 1000 + k, per))
    exe = vlib.binpath('harness/' + target)

    def one(j):
        mode, seed, per = j
        w = os.path.join(d, '%s%d' % (mode, seed))
        os.makedirs(w)
        r = vlib.run([exe, mode, w, str(seed), str(per)], timeout=600, cwd=w, asan_extra=BAD if mode == 'bad' else '')
        shutil.rmtree(w, ignore_errors=True)
        return r

    jobs.sort(key=lambda j: -j[1])
    for (mode, seed, per), r in zip(jobs, vlib.pmap(one, jobs)):
        out = r.out.decode('utf-8', 'replace')
        cases = out.count('\nCASE ') + out.startswith('CASE ')
        last = cases - 1
        pay = '%s %s DIR %d %d   (case numbers count from 0)\n' % (target, mode, seed, per)
        chk.sanitize(r, '%s %s seed %d case %d' % (target, mode, seed, last), pay + out[-3000:])
        cur = -1
        bad = set()
        for l in out.splitlines():
            if l.startswith('CASE '):
                cur = int(l[5:])
            elif l.startswith('FAIL '):
                key = l.split(' ')[1]
                bad.add(cur)
                chk.violation(mode + ':' + key, 'seed %d case %d: %s' % (seed, cur, l[5:600]), pay + l)
            elif l.startswith('COUNT '):
                _, k, v = l.split()
                chk.count(k, int(v))
        for i in range(cases):
            chk.eval('%s/%d/%d' % (mode, seed, i))
        if 'DONE' not in out and r.rc == 0 and not r.timeout:
            chk.violation('incomplete', '%s %s seed %d stopped early' % (target, mode, seed), out[-2000:])
    shutil.rmtree(d, ignore_errors=True)
    if not chk.viol:
        for k, v in need.items():
            if chk.counters.get(k, 0) < v:
                chk.violation('vacuous:' + k, 'only %d of at least %d expected observations of %s were made' % (chk.counters.get(k, 0), v, k))
    return jobs
