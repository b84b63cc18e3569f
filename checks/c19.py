"""C19: search paths, command lines, child programs."""
import ctypes, fnmatch, os, random, re, shutil
import vlib

NONE, ARGV = -1, -2
libc = ctypes.CDLL(None, use_errno=True)
libc.strtol.restype = ctypes.c_long
libc.strtol.argtypes = [ctypes.c_char_p, ctypes.POINTER(ctypes.c_void_p), ctypes.c_int]
libc.strtod.restype = ctypes.c_double
libc.strtod.argtypes = [ctypes.c_char_p, ctypes.POINTER(ctypes.c_void_p)]


def hx(s):
    b = s if isinstance(s, bytes) else s.encode()
    return b.hex() or '-'


def unhx(h):
    return '' if h == '-' else bytes.fromhex(h).decode('utf-8', 'surrogateescape')


class Bad(Exception):
    pass


class Unjudged(Exception):
    """an option with a number of arguments, given more than once: its meaning is not laid down"""


def number(s, whole):
    b = ctypes.create_string_buffer(s.encode())
    end = ctypes.c_void_p()
    p = ctypes.cast(b, ctypes.c_char_p)
    ctypes.set_errno(0)
    v = libc.strtol(p, ctypes.byref(end), 0) if whole else libc.strtod(p, ctypes.byref(end))
    if not s or end.value - ctypes.addressof(b) != len(s.encode()):
        raise Bad('not a number')
    if whole and not (-2 ** 31 <= v < 2 ** 31 and ctypes.get_errno() == 0):
        raise Bad('out of range')
    return v


# ------------------------------------------------------------------ command lines
class Option:
    def __init__(self, k, name, sep, count):
        self.k, self.name, self.sep, self.count = k, name, sep, count
        self.v = {'b': False, 'B': False, 'N': True, 'i': -77, 'd': -77.0, 's': 'default'}.get(k)
        if k in 'IDS':
            self.v = []
        self.used = self.seen = False
        self.limited = count > 0

    def takes(self):
        return self.k not in 'bBN'

    def one(self, a):
        if self.k in 'bBN':
            if self.used and self.v != (a == ''):
                raise Bad('negated')
            self.v, self.used = a == '', True
            return
        v = number(a, True) if self.k in 'iI' else number(a, False) if self.k in 'dD' else a
        if self.k in 'ids':
            if self.used:
                raise Bad('twice')
            self.v, self.used = v, True
        else:
            self.v.append(v)
            if self.count > 0:
                self.count -= 1

    def eat(self, a):
        if self.sep < 0:
            return self.one(a)
        if a == '':
            return
        parts = a.split(chr(self.sep))
        for p in parts[:-1] if parts[-1] == '' else parts:
            self.one(p)


def lookup(O, A, n):
    n = A.get(n, n)
    if n in O:
        return O[n], False
    if n[:2] == 'no':
        n = A.get(n[2:], n[2:])
        if n in O and O[n].k in 'BN':
            return O[n], True
    return None, False


def model(comb, unrec, opts, aliases, argv, before=None):
    """what the command line says, after the description in argparse.h"""
    O, A, left = {}, {}, []
    argv = [a.encode().decode('latin-1') for a in argv]     # arguments are bytes
    L = before or [Option(*o) for o in opts]
    for o in L:
        o.used = False
    for o in L:
        O.setdefault(o.name, o)
    for r, a in aliases:
        A.setdefault(a, r)
    many = one = None
    try:
        for i, a in enumerate(argv):
            if one is not None:
                one.eat(a)
                one = None
                continue
            if many is not None and many.count == 0:
                many = None
            if a[:1] != '-' or a == '-':
                if many is not None:
                    many.eat(a)
                else:
                    left.append(a)
                continue
            many = None
            if a == '--':
                left += argv[i + 1:]
                break
            dashes = 2 if a[:2] == '--' else 1
            rest = a[dashes:]
            l = len(re.match('[^:=]*', rest, re.S).group())
            if comb and dashes == 1 and l > 1:
                for c in rest[:l - 1]:
                    o, no = lookup(O, A, c)
                    if o is None or o.takes():
                        raise Bad('bundle')
                    o.one('no' if no else '')
                rest = rest[l - 1:]
                l = 1
            o, no = lookup(O, A, rest[:l])
            if o is None:
                o, _ = lookup(O, A, rest[:1])
                if o is not None and o.takes():
                    l = 0
                elif unrec:
                    left.append(a)
                    continue
                else:
                    raise Bad('unrecognized')
            if o.takes():
                if o.limited and o.seen:
                    raise Unjudged()
                o.seen = True
                if l < len(rest):
                    o.eat(rest[l + 1:])
                elif o.sep != ARGV:
                    one = o
                if o.sep == ARGV:
                    many = o
            elif l < len(rest):
                raise Bad('argument of a flag')
            else:
                o.one('no' if no else '')
        if one is not None:
            raise Bad('missing')
    except Bad as e:
        return False, None, None, str(e)
    return True, left, L, ''


NUMS = ['5', '-3', '0x1f', '010', '+7', ' 8', '2147483647', '-2147483648', '2147483648', '99999999999999999999', '-9999999999', '4294967297', 'x', '3.5', '7 ', '0x', '08', '1e3', '.5', '-.25', 'inf', '1.5.2', '0']
WORDS = ['a.rib', 'scene', 'foo', 'bar=1', 'a:b', 'x,y', '-', 'no', '1,2', ',', 'a,,b', 'one two', 'f', 'é', '=', '%']


def command(r):
    comb, unrec = r.random() < .25, r.random() < .3
    names = r.sample(['foo', 'bar', 'b', 'a', 'res', 'crop', 'I', 'D', 'o', 'verbose', 'no', 'nob', 'frames', 'f', 'n', 'long-name', 'x'], r.randint(1, 7))
    opts = []
    for n in names:
        k = r.choice('bBNidsIDSIDS')
        sep = r.choice([NONE, ARGV, ARGV, ord(','), ord(':')]) if k in 'IDS' else NONE
        opts.append((k, n, sep, r.choice([-1, 1, 2, 3, 4]) if sep == ARGV and r.random() < .6 else -1))
    aliases = [(r.choice(['', '', 'no']) + r.choice(names), r.choice(['z', 'zz', 'quiet', 'q', 'w', 'nofoo', 'alias'])) for _ in range(r.randint(0, 3))]
    argv, once = [], set()
    for _ in range(r.randint(0, 9)):
        c = r.random()
        if c < .6:
            n = r.choice([o[1] for o in opts] + [a for _, a in aliases] + ['unknown', 'q'] * (r.random() < .15))
            o = next((o for o in opts if o[1] == n), None)
            if r.random() < .15:
                n = 'no' + n
            d = r.choice(['-', '--']) if not comb or len(n) == 1 else r.choice(['--', '--', '-'])
            # a value that suits the option, most of the time
            kind = o[0] if o else 's'
            def val():
                if r.random() < .12:
                    return r.choice(NUMS + WORDS)
                v = [r.choice(['1', '-2', '0x10', '77']) if kind in 'iI' else r.choice(['1', '2.5', '-1e-3']) if kind in 'dD' else r.choice(WORDS) for _ in range(r.randint(1, 4) if o and o[2] > 0 else 1)]
                return chr(o[2]).join(v) if o and o[2] > 0 else v[0]
            if o and o[3] > 0:
                if n in once:
                    continue
                once.add(n)
            if kind in 'bBN' and o:
                argv.append(d + n + (r.choice(['=1', ':x']) if r.random() < .04 else ''))
            elif o and o[2] == ARGV:
                argv.append(d + n + (r.choice('=:') + val() if r.random() < .25 else ''))
                m = r.choice([0, 1, 2, 3, 5]) if o[3] < 0 else o[3] - ('=' in argv[-1] or ':' in argv[-1]) if r.random() < .7 else r.randint(0, 5)
                argv += [val() for _ in range(max(m, 0))]
                if o[3] > 0 and r.random() < .6:
                    argv += [r.choice(WORDS + ['']) for _ in range(r.randint(1, 2))]
            else:
                f = r.random()
                if len(n) == 1 and f < .3:
                    argv.append(d + n + val())
                elif f < .6:
                    argv.append(d + n + r.choice('=:') + val())
                else:
                    argv += [d + n] + [val()] * (r.random() < .95)
        elif c < .85:
            argv.append(r.choice(WORDS + [''] * 2))
        elif c < .9 and comb:
            argv.append('-' + ''.join(r.choice('abIDofnx') for _ in range(r.randint(2, 3))))
        elif c < .94:
            argv.append(r.choice(['--', '-', '-zzz', '--=3', '-:', '---', '-5']))
    return comb, unrec, opts, aliases, argv


def show(o):
    if o.k in 'bBN':
        return str(int(o.v))
    if o.k == 'i':
        return str(o.v)
    if o.k == 'd':
        return '%.17g' % o.v
    if o.k == 's':
        return hx(o.v.encode('latin-1'))
    return ' '.join(str(x) if o.k == 'I' else '%.17g' % x if o.k == 'D' else hx(x.encode('latin-1')) for x in o.v)


def runlines(chk, jobs, d, what):
    """jobs: lists of (command line for the driver, expected reply or a function judging it)"""
    def go(j):
        k, J = j
        p = os.path.join(d, 'q%d' % k)
        open(p, 'w').write('\n'.join(x[0] for x in J) + '\n')
        r = vlib.run([vlib.binpath('harness/h_util'), 'lines', p], cwd=d, timeout=120)
        os.remove(p)
        return r
    for (k, J), x in zip(enumerate(jobs), vlib.pmap(go, list(enumerate(jobs)))):
        out = [l.rstrip() for l in x.out.decode('utf-8', 'surrogateescape').split('\n')[:-1]]
        ask = [q for q in J if q[1] is not None]
        n = 0
        for (q, want, desc, key), got in zip(ask, out):
            n += 1
            w = want.rstrip() if isinstance(want, str) else None
            if w is not None and got != w:
                chk.violation(key, '%s: got %s, expected %s' % (desc, decode(got), decode(w)), q)
            elif w is None:
                e = want(got)
                if e:
                    chk.violation(key, '%s: %s' % (desc, e), q)
            chk.eval(q.encode())
        chk.sanitize(x, what + (': ' + ask[n][2] if n < len(ask) else ''), '\n'.join(q[0] for q in J))
        if x.rc == 0 and len(out) != len(ask):
            chk.violation('answers', '%d answers to %d questions' % (len(out), len(ask)), '\n'.join(q[0] for q in J))


def decode(l):
    return ' '.join(repr(unhx(w)) if re.fullmatch('([0-9a-f]{2})+', w) else w for w in l.split(' '))[:600]


def commands(chk, d, n):
    r = chk.rng
    jobs = []
    for k in range(n):
        J = []
        for i in range(200):
            comb, unrec, opts, aliases, argv = command(r)
            try:
                ok, left, L, why = model(comb, unrec, opts, aliases, argv)
            except Unjudged:
                continue
            q = 'args %d %d %d %s %d %s %d %s' % (comb, unrec, len(opts), ' '.join('%s %s %d %d' % (o[0], hx(o[1]), o[2], o[3]) for o in opts), len(aliases), ' '.join(hx(a) + ' ' + hx(b) for a, b in aliases), len(argv), ' '.join(map(hx, argv)))
            desc = 'options %s aliases %s%s%s, command line %r' % (opts, aliases, ' combined' * comb, ' unrecognized allowed' * unrec, argv)
            if ok:
                chk.count('values_stored', sum(len(o.v) if isinstance(o.v, list) else o.used for o in L))
                reply = lambda: ' '.join(['1 -', str(len(left))] + [hx(x.encode('latin-1')) for x in left]) + ''.join(' | ' + show(o) for o in L)
                want = 'args ' + reply()
                again = [a for a in argv if r.random() < .6] if r.random() < .4 and not any(o.limited for o in L) else None
                if again is not None:
                    ok, left, L, why = model(comb, unrec, opts, aliases, again, L)
                    if ok:
                        want += ' & ' + reply()
                        q += ' %d %s' % (len(again), ' '.join(map(hx, again)))
                        desc += ', then %r' % again
                        chk.count('parsers_used_again')
                chk.count('lines_accepted')
                J.append((q, (lambda got, want=want: None if got.split() == want.split() else 'got %s, expected %s' % (decode(got), decode(want))), desc, 'arguments'))
            else:
                chk.count('lines_rejected')
                chk.count('rejected_' + why.replace(' ', '_'))
                J.append((q, (lambda got: None if got.startswith('args 0 ') and got.split()[2] != '-' else 'accepted (or rejected without a message): ' + decode(got)), desc + ' (%s)' % why, 'arguments-error'))
        jobs.append(J)
    runlines(chk, jobs, d, 'command line')


# ------------------------------------------------------------------ search paths
def expand(new, old, dflt, env):
    out, i = '', 0
    while i < len(new):
        c = new[i]
        if c == '%' and '%' in new[i + 1:]:
            e = new.index('%', i + 1)
            out += env.get(new[i + 1:e], '')
            i = e
        else:
            out += old if c == '&' else dflt if c == '@' else c
        i += 1
    return out


def paths(chk, d, n):
    r = chk.rng
    jobs = []
    for k in range(n):
        w = os.path.join(d, 't%d' % k)
        os.makedirs(w)
        dirs = ['a', 'b', 'a/sub', 'b c', 'é', 'loop', 'file', 'gone', 'link', '.h']
        for x in ('a/sub', 'b c', 'b', 'é', '.h/sub'):
            os.makedirs(os.path.join(w, x), exist_ok=True)
        os.symlink('loop', os.path.join(w, 'loop'))
        os.symlink('a', os.path.join(w, 'link'))
        open(os.path.join(w, 'file'), 'w').close()
        names = ['s.slx', 't.tex', 'sub/u.rib', 'x y', 'ü', '.hid', 'v', 'n' * 300, 'w/..', 'sub', 'sub/../s.slx', 'dang']
        for x in ('a', 'a/sub', 'b', 'b c', 'é', '.h', '.'):
            for m in names[:7]:
                p = os.path.join(w, x, m)
                if r.random() < .35 and os.path.isdir(os.path.dirname(p)):
                    open(p, 'w').close()
            if r.random() < .3:
                os.makedirs(os.path.join(w, x, r.choice(['s.slx', 't.tex', 'v'])), exist_ok=True) if not os.path.isfile(os.path.join(w, x, 's.slx')) and not os.path.isfile(os.path.join(w, x, 't.tex')) and not os.path.isfile(os.path.join(w, x, 'v')) else None
            if r.random() < .3 and not os.path.lexists(os.path.join(w, x, 'dang')):
                os.symlink(r.choice(['nowhere', 'v', 'dang']), os.path.join(w, x, 'dang'))
        env = {'V%d' % i: r.choice(['', 'x', '/p/q', 'a:b', '%V0%', '&', '@']) for i in range(3)}
        J = [('env %s %s' % (hx(a), hx(v)), None, '', '') for a, v in env.items()] + [('env %s unset' % hx('NOPE'), None, '', '')]
        for i in range(60):
            piece = lambda: r.choice(['a', '/x/y', ':', ';', '&', '@', '%V0%', '%V1%', '%V2%', '%NOPE%', '%%', '%', '.', '..', ' ', 'é', '$', '//C/f', '']) 
            new = ''.join(piece() for _ in range(r.randint(0, 7)))
            old, df = [''.join(piece() for _ in range(r.randint(0, 3))) for _ in 'ab']
            chk.count('lone_percent', new.count('%') % 2)
            J.append(('expand %s %s %s' % (hx(new), hx(old), hx(df)), 'expand ' + hx(expand(new, old, df, env)), 'path %r after %r, default %r, variables %s' % (new, old, df, env), 'expand'))
            path = ''.join(r.choice(['a', 'b c', '/x', ':', ';', '::', '.', 'é']) for _ in range(r.randint(0, 8)))
            J.append(('split ' + hx(path), ' '.join(['split'] + [hx(t) for t in re.split('[:;]', path) if t]), 'parts of %r' % path, 'split'))
        for i in range(60):
            D = [r.choice(dirs + ['.', './', 'a/', 'a//', w, w + '/b', 'z' * 300]) for _ in range(r.randint(0, 5))]
            path = ''.join(x + r.choice([':', ';', '::']) for x in D)
            if r.random() < .5:
                path = path.rstrip(':;')
            name = r.choice(names + ['./s.slx', '../%s/a/v' % os.path.basename(w), w + '/a/s.slx', '', './sub', './dang', './' + 'n' * 300, w + '/loop/v', '.', '..'])
            if not name:
                want = ''
            elif name[0] == '/' or name.split('/')[0] in ('.', '..'):
                want = name if os.path.isfile(os.path.join(w, name)) else ''
            else:
                want = next((q for q in (x + ('' if x.endswith('/') else '/') + name for x in D) if os.path.isfile(os.path.join(w, q))), '')
            chk.count('files_found' if want else 'files_absent')
            J.append(('find %s %s' % (hx(name), hx(path)), 'find %s %s' % (hx(want), hx(want)), '%r in %r' % (name, path), 'find'))
        for i in range(15):
            x, pat = r.choice(['a', 'b c', 'gone', '.h']), r.choice(['*', 's*', '?', '*.[st]*', '*.???', '[!s]*', '* *', 'v', 'nothing*', '*é*'])
            L = sorted((y for y in os.listdir(os.path.join(w, x)) if fnmatch.fnmatchcase(y, pat) and y[0] != '.'), key=lambda s: s.encode()) if os.path.isdir(os.path.join(w, x)) else []
            if '?' in pat and any(ord(c) > 127 for y in os.listdir(os.path.join(w, x)) for c in y) if os.path.isdir(os.path.join(w, x)) else False:
                continue
            chk.count('glob_matches', len(L))
            J.append(('glob ' + hx(x + '/' + pat), ' '.join(['glob'] + [hx(x + '/' + y) for y in L]), 'files matching %r' % (x + '/' + pat), 'glob'))
        jobs.append((w, J))

    def go(j):
        w, J = j
        p = os.path.join(d, os.path.basename(w) + '.q')
        open(p, 'w').write('\n'.join(x[0] for x in J) + '\n')
        return vlib.run([vlib.binpath('harness/h_util'), 'lines', p], cwd=w, timeout=60, asan_extra='hard_rss_limit_mb=6000')
    for (w, J), x in zip(jobs, vlib.pmap(go, jobs)):
        out = [l.rstrip() for l in x.out.decode('utf-8', 'surrogateescape').split('\n')[:-1]]
        ask = [q for q in J if q[1] is not None]
        for (q, want, desc, key), got in zip(ask, out):
            if got != want.rstrip():
                chk.violation(key, '%s: got %s, expected %s' % (desc, decode(got), decode(want)), q)
            chk.eval(q.encode())
        nxt = ask[len(out)] if len(out) < len(ask) else None
        if chk.sanitize(x, 'search paths' + (': ' + nxt[2] if nxt else ''), nxt[0] if nxt else None) and nxt:
            chk.violation('answers', '%d answers to %d questions' % (len(out), len(ask)), nxt[0])
        shutil.rmtree(w)


def bitvectors(chk, d, n):
    r = chk.rng
    jobs = []
    for k in range(n):
        J = []
        for i in range(200):
            m = r.choice([1, 7, 8, 9, 16, 17, 31, 64, 65, r.randint(1, 300)])
            a, b = [[r.random() < r.choice([.1, .5, .9]) for _ in range(m)] for _ in 'ab']
            ops = ''.join(r.choice('&|^~saox10pq&|^~') for _ in range(r.randint(0, 8)))
            q = 'bits %d %s %s %s' % (m, ''.join('01'[x] for x in a), ''.join('01'[x] for x in b), ops or '~~')
            for j, o in enumerate(ops):
                if o in '&a': a = [x and y for x, y in zip(a, b)]
                elif o in '|o': a = [x or y for x, y in zip(a, b)]
                elif o in '^x': a = [x != y for x, y in zip(a, b)]
                elif o == '~': a = [not x for x in a]
                elif o == 's': a, b = b, a
                elif o in '10': a = [o == '1'] * m
                else:
                    t = (ord(o) * 7 + j) % m
                    a = a[:t] + [not a[t]] + a[t + 1:]
            J.append((q, 'bits %s %d' % (''.join('01'[x] for x in a), sum(a)), 'bits', 'bits'))
        jobs.append(J)
    chk.count('bit_vectors', 200 * n)
    runlines(chk, jobs, d, 'bit vectors')


# ------------------------------------------------------------------ child programs
def digest(b):
    s = 0
    for c in b:
        s = (s * 31 + c) & 0xffffffff
    return s


def scenario(chk, r, d):
    """operations of the parent, and the replies they must give (None: not judged)"""
    ops, want, live, k = [], [], {}, 0
    notes = []

    def op(s, reply=()):
        ops.append(s)
        want.extend([reply] if isinstance(reply, str) else reply)
        if r.random() < .2:
            notes.append(r.randrange(1000))
            ops.append('note %d' % notes[-1])
    fds = lambda: sum(x['fds'] for x in live.values())
    fails = r.random() < .5
    if fails:
        for _ in range(r.randint(1, 4)):
            op('open %d %s echo 1 0' % (99, hx(r.choice([os.path.join(d, 'nothing'), d, '/dev/null', 'no-such-program-anywhere', '', './x y']))), 'open 99 environment')
            chk.count('failed_starts')
        op('left 0', 'left 0')
        op('reap 0', 'reap 0')
    for _ in range(r.randint(2, 8)):
        c = r.random()
        if c < .55 or not live:
            k += 1
            mode = r.choice(['args', 'fds', 'lines', 'lines', 'echo', 'count', 'count', 'count', 'early'])
            A = [r.choice(['a', '', 'x y', '"', '$HOME', '*', '-x', 'é\n', '\\', "'"]) for _ in range(r.randint(0, 4))] if mode == 'args' else []
            op('open %d self %s %d %d %s' % (k, mode, r.randrange(1, 1 << 30), len(A), ' '.join(map(hx, A))), 'open %d ok' % k)
            chk.count('children_' + mode)
            live[k] = {'mode': mode, 'fds': 2, 'data': b'', 'args': A}
            if r.random() < .3:
                op('left 0', 'left %d' % fds())
        elif c < .62:
            op('open 99 %s echo 1 0' % hx(os.path.join(d, 'nothing')), 'open 99 environment')
            op('left 0', 'left %d' % fds())
            chk.count('failed_starts')
        else:
            i = r.choice(sorted(live))
            x = live[i]
            m = x['mode']
            if m == 'lines':
                for _ in range(r.randint(1, 4)):
                    j = r.choice([q for q in live if live[q]['mode'] == 'lines'])
                    t = bytes(r.choice(b'abc xyz\xff\x01') for _ in range(r.choice([0, 3, 50, 3000])))
                    op('write %d %s 1' % (j, hx(t + b'\n')), 'write %d good' % j)
                    op('line %d' % j, 'line %d 1 %s' % (j, hx(t)))
                    chk.count('lines_exchanged')
            elif m in ('echo', 'count') and x['fds'] == 2:
                t = bytes(r.randrange(256) for _ in range(r.choice([1, 100, 5000])))
                rep = 1 if m == 'echo' else r.choice([1, 3, 40, 300])
                if m == 'count' and r.random() < .6:
                    op('ticks %d' % r.choice([300, 700, 1500]))
                    chk.count('writes_with_signals')
                if len(x['data']) + len(t) * rep < (16000 if m == 'echo' else 4000000):
                    if m == 'count' and r.random() < .5:
                        op('send %d %s %d' % (i, hx(t), rep), 'send %d %d' % (i, len(t) * rep))
                    else:
                        op('write %d %s %d' % (i, hx(t), rep), 'write %d good' % i)
                    x['data'] += t * rep
                    chk.count('bytes_to_children', len(t) * rep)
                op('ticks 0')
    for i in r.sample(sorted(live), len(live)):
        x = live[i]
        m = x['mode']
        if m in ('echo', 'count', 'lines') and r.random() < .85:
            # the child sees the end of its input although other children are still there
            op('eof %d' % i)
            x['fds'] = 1
            chk.count('input_ended', 1)
            chk.count('others_alive', len(live) - 1)
            reply = {'echo': x['data'], 'count': b'%d %d\n' % (len(x['data']), digest(x['data'])), 'lines': b''}[m]
            op('rest %d' % i, 'rest %d %d %d end %s' % (i, len(reply), digest(reply), hx(reply[:2000])))
        elif m == 'args':
            reply = b''.join(hx(a).encode() + b'\n' for a in x['args'])
            op('rest %d' % i, 'rest %d %d %d end %s' % (i, len(reply), digest(reply), hx(reply[:2000])))
        elif m == 'fds':
            reply = b'0 1 2 \n'
            op('rest %d' % i, 'rest %d %d %d end %s' % (i, len(reply), digest(reply), hx(reply)))
        if r.random() < .9:
            op('drop %d' % i)
            del live[i]
            op('left 0', 'left %d' % fds())
    want.append('end 0')
    return ops, want, ''.join('note %d\n' % x for x in notes)


def children(chk, d, n):
    r = chk.rng
    jobs = [(k,) + scenario(chk, r, d) for k in range(n)]

    def go(j):
        p = os.path.join(d, 'k%d' % j[0])
        open(p, 'w').write('\n'.join(j[1]) + '\n')
        x = vlib.run([vlib.binpath('harness/h_util'), 'kids', p, p + '.log'], cwd=d, timeout=40)
        log = open(p + '.log').read() if os.path.exists(p + '.log') else None
        return x, log
    for at in range(0, len(jobs), 40):
        if len(chk.viol) > 2:
            break
        judge(chk, jobs[at:at + 40], go)


def judge(chk, jobs, go):
    for (k, ops, want, notes), (x, log) in zip(jobs, vlib.pmap(go, jobs)):
        src = '\n'.join(ops) + '\n'
        out = x.out.decode('utf-8', 'surrogateescape').split('\n')[:-1]
        last = next((i for i, (a, b) in enumerate(zip(out, want)) if a.rstrip() != b.rstrip()), None)
        if last is not None:
            chk.violation('child:' + want[last].split()[0], 'got %s, expected %s' % (out[last][:300], want[last][:300]), src)
            continue
        if not chk.sanitize(x, 'child programs (next reply due: %s)' % (want[len(out)][:200] if len(out) < len(want) else 'none'), src):
            continue
        if len(out) != len(want):
            chk.violation('child:replies', '%d replies, expected %d' % (len(out), len(want)), src)
        elif log != notes:
            chk.violation('child:buffered', 'what the parent had buffered came out as %r, written %r' % (log[:200] if log else log, notes[:200]), src)
        chk.count('replies_compared', len(out))
        chk.eval(src.encode())


def main():
    chk = vlib.Check('C19', rule='A case is a set of options with a command line, a search path to expand, split or search in a random directory tree, a pattern, a bit vector program, or a session of a parent with several child programs. Distinct by its text.')
    chk.assumptions = ['strtol and strtod of the C library decide what is a number', 'search paths are judged for POSIX, where // has no meaning of its own']
    vlib.build(['h_util'])
    d = vlib.scratch('C19')
    try:
        commands(chk, d, chk.n(200, 2400))
        paths(chk, d, chk.n(200, 2000))
        bitvectors(chk, d, chk.n(30, 300))
        children(chk, d, chk.n(960, 12000))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for k, v in {'lines_accepted': 3000, 'parsers_used_again': 500, 'lines_rejected': 1500, 'files_found': 500, 'files_absent': 300, 'lone_percent': 300, 'glob_matches': 500, 'failed_starts': 100, 'lines_exchanged': 200, 'writes_with_signals': 30, 'others_alive': 300}.items():
        if chk.counters.get(k, 0) < v and not chk.viol:
            raise vlib.HarnessError('too little was exercised: %s = %s' % (k, chk.counters.get(k, 0)))
    chk.sample(dict(sorted(chk.counters.items())))
    return chk.finish()
