"""Batch execution of h_rib cases with crash isolation."""
import vlib, ribgen


def run_batch(chk, cases, label, timeout=120, chunk=60):
    """cases: list of (id, text, payload). Returns {id: result}; a case whose
    process died is reported and the rest of its chunk rerun without it."""
    exe = vlib.binpath('harness/h_rib')
    chunks = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]

    def go(cs):
        res = {}
        todo = list(cs)
        guard = 0
        while todo and guard < 40:
            guard += 1
            r = vlib.run([exe], ''.join(c[1] for c in todo).encode(), timeout=timeout)
            out = ribgen.parse_output(r.out)
            if r.rc == 77:
                raise vlib.HarnessError(r.err[-400:].decode('utf-8', 'replace'))
            dead = None
            for i, c in enumerate(todo):
                if c[0] in out and out[c[0]]['done']:
                    res[c[0]] = out[c[0]]
                else:
                    dead = i
                    break
            fatal_rep = [x for x in r.reports if not x[0].startswith('ubsan')]
            soft = [x for x in r.reports if x[0].startswith('ubsan')]
            seen = set()
            for k, exc in soft:
                if k not in seen:
                    seen.add(k)
                    chk.violation(k, '%s: %s' % (label, exc), None)
            if dead is None:
                if r.rc != 0 and not r.timeout:
                    chk.violation('exit:%d' % r.rc, '%s: exit %d %s' % (label, r.rc, r.err[-500:]), None)
                break
            c = todo[dead]
            if r.timeout:
                r2 = vlib.run([exe], c[1].encode(), timeout=timeout)
                if r2.timeout:
                    chk.violation('hang:' + label, '%s: case %s does not terminate within %d s (twice)' % (label, c[0], timeout), c[2])
                else:
                    o2 = ribgen.parse_output(r2.out)
                    if c[0] in o2 and o2[c[0]]['done']:
                        res[c[0]] = o2[c[0]]
            elif fatal_rep:
                for k, exc in fatal_rep[:1]:
                    chk.violation(k, '%s: case %s: %s' % (label, c[0], exc), c[2])
            else:
                chk.violation('exit:%d' % r.rc, '%s: case %s ended the process with status %d: %s' %
                              (label, c[0], r.rc, r.err[-500:].decode('utf-8', 'replace')), c[2])
            todo = todo[dead + 1:]
        return res
    allres = {}
    for d in vlib.pmap(go, chunks):
        allres.update(d)
    return allres
