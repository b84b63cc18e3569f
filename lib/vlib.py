"""Shared machinery of the checks: tree mirror, sanitizer build, process
runner, sanitizer-report parsing, verdicts, known findings and evidence."""
import fcntl, hashlib, json, os, random, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SRC = os.path.join(BUILD, 'src')
BLD = os.path.join(BUILD, 'asan')
HARN = os.path.join(VERIF, 'harness')
JOBS = os.cpu_count() or 8

SAN = ('-fsanitize=address,signed-integer-overflow,shift,integer-divide-by-zero,'
       'bounds,bool,return,unreachable,vla-bound')
CXXFLAGS = ('-O1 -g1 -fno-omit-frame-pointer -w ' + SAN +
            ' -ftrivial-auto-var-init=pattern -DBOOST_MESSAGE=BOOST_TEST_MESSAGE')


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------- mirror+build
def _write_if_different(src, dst, transform=None):
    with open(src, 'rb') as f:
        data = f.read()
    if transform:
        data = transform(data)
    try:
        with open(dst, 'rb') as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if os.path.islink(dst):
        os.unlink(dst)
    with open(dst, 'wb') as f:
        f.write(data)
    shutil.copymode(src, dst)
    return True


def sync():
    """Content-based copy of the working tree of REPO into SRC (mtimes of
    unchanged files stay put, so the incremental build is exact)."""
    want = {}
    skip = {'.git', '_build', 'doc'}
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == '.':
            rel = ''
            dirs[:] = [d for d in dirs if d not in skip]
        for fn in files:
            want[os.path.join(rel, fn)] = os.path.join(root, fn)
    # the thirdparty point cloud library that the release does not carry
    stub = os.path.join(VERIF, 'partio_stub')
    for root, dirs, files in os.walk(stub):
        rel = os.path.relpath(root, stub)
        for fn in files:
            want[os.path.normpath(os.path.join('thirdparty/partio/src/src/lib', rel, fn))] = \
                os.path.join(root, fn)
    for d in ('core', 'io'):
        os.makedirs(os.path.join(SRC, 'thirdparty/partio/src/src/lib', d), exist_ok=True)
    n = 0
    for rel, src in want.items():
        if os.path.islink(src) and not os.path.exists(src):
            continue
        tr = None
        if rel == 'CMakeLists.txt':
            tr = lambda d: d + b'\nadd_subdirectory("%s" harness)\n' % HARN.encode()
        if _write_if_different(src, os.path.join(SRC, rel), tr):
            n += 1
    for root, dirs, files in os.walk(SRC):
        rel = os.path.relpath(root, SRC)
        if rel == '.':
            rel = ''
        for fn in files:
            if os.path.join(rel, fn) not in want:
                os.unlink(os.path.join(root, fn))
                n += 1
    return n


_lockf = None


def _lock():
    global _lockf
    os.makedirs(BUILD, exist_ok=True)
    _lockf = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(_lockf, fcntl.LOCK_EX)


def _unlock():
    fcntl.flock(_lockf, fcntl.LOCK_UN)


def build_env():
    e = dict(os.environ)
    for k in ('CC', 'CXX', 'CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'DESTDIR', 'NINJA_STATUS'):
        e.pop(k, None)
    e['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    e['LC_ALL'] = 'C.UTF-8'
    e['CCACHE_DIR'] = os.path.join(BUILD, 'ccache')
    e['CCACHE_MAXSIZE'] = '3G'
    # the tools run during the build (aqsl on the shaders) are sanitized
    e['ASAN_OPTIONS'] = 'detect_leaks=0:halt_on_error=0'
    return e


def build(targets):
    """Bring the sanitizer build of the given targets up to date with REPO."""
    t0 = time.time()
    _lock()
    try:
        sync()
        env = build_env()
        log = os.path.join(BUILD, 'build.log')
        with open(log, 'w') as lf:
            if not os.path.exists(os.path.join(BLD, 'build.ninja')):
                cmd = ['cmake', '-G', 'Ninja', '-Wno-dev', '-S', SRC, '-B', BLD,
                       '-DCMAKE_BUILD_TYPE=None', '-DCMAKE_C_COMPILER=clang',
                       '-DCMAKE_CXX_COMPILER=clang++',
                       '-DCMAKE_C_FLAGS=-O1 -g1 -w -fsanitize=address',
                       '-DCMAKE_CXX_FLAGS=' + CXXFLAGS,
                       '-DAQSIS_USE_QT=OFF', '-DAQSIS_ENABLE_DOCS=OFF']
                if shutil.which('ccache'):
                    cmd += ['-DCMAKE_C_COMPILER_LAUNCHER=ccache',
                            '-DCMAKE_CXX_COMPILER_LAUNCHER=ccache']
                r = subprocess.run(cmd, stdout=lf, stderr=lf, env=env)
                if r.returncode:
                    shutil.rmtree(BLD, ignore_errors=True)
                    raise HarnessError('cmake failed, see ' + log)
            r = subprocess.run(['ninja', '-C', BLD] + list(targets), stdout=lf, stderr=lf, env=env)
        if r.returncode:
            tail = open(log, errors='replace').read()[-3000:]
            raise HarnessError('build failed:\n' + tail)
    finally:
        _unlock()
    return time.time() - t0


def binpath(rel):
    return os.path.join(BLD, rel)


# ------------------------------------------------------------------- processes
ASAN_OPTS = ('detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:'
             'detect_stack_use_after_return=1:malloc_context_size=12:print_summary=1:'
             'max_malloc_fill_size=65536:hard_rss_limit_mb=6000:handle_abort=1')


class Result:
    __slots__ = ('rc', 'out', 'err', 'timeout', 'reports', 'wall')

    def text(self):
        return (self.out + self.err).decode('utf-8', 'replace')


def sanenv(extra=None, asan_extra=''):
    e = {k: v for k, v in os.environ.items()
         if not (k.startswith('AQSIS') or k in ('LD_PRELOAD', 'DISPLAY'))}
    e['ASAN_OPTIONS'] = ASAN_OPTS + (':' + asan_extra if asan_extra else '')
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=0'
    e['LC_ALL'] = 'C'
    e['HOME'] = '/nonexistent'
    if extra:
        e.update(extra)
    return e


def run(cmd, stdin=b'', timeout=120, cwd=None, env=None, asan_extra=''):
    """Run an instrumented program; collect output and sanitizer reports."""
    r = Result()
    t0 = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, cwd=cwd, env=sanenv(env, asan_extra),
                         start_new_session=True)
    try:
        r.out, r.err = p.communicate(stdin, timeout=timeout)
        r.timeout = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        r.out, r.err = p.communicate()
        r.timeout = True
    r.rc = p.returncode
    r.wall = time.time() - t0
    r.reports = parse_reports(r.err)
    return r


_FRAME = re.compile(r'^\s*#\d+ 0x[0-9a-f]+ in (.+?)(?: (/\S+?):(\d+)(?::\d+)?)?(?: \((\S+?)\+0x[0-9a-f]+\).*)?$')


def _frames(lines, i):
    fr = []
    while i < len(lines):
        m = _FRAME.match(lines[i])
        if not m:
            if fr:
                break
            if lines[i].strip() and not lines[i].lstrip().startswith('#') and len(fr) == 0 and i > 0 \
               and lines[i].startswith('SUMMARY'):
                break
            i += 1
            continue
        fr.append((m.group(1), m.group(2) or m.group(4) or ''))
        i += 1
    return fr


def _short(fn):
    fn = re.sub(r'\(anonymous namespace\)', 'anon', fn)
    fn = re.sub(r'<[^<>]*>', '', fn)
    fn = re.sub(r'<[^<>]*>', '', fn)
    fn = fn.split('(')[0].strip()
    return fn.split(' ')[-1]


def _own(fr):
    for fn, path in fr:
        if SRC in path or '/repo/' in path:
            return _short(fn)
    return _short(fr[0][0]) if fr else '?'


def parse_reports(err):
    """-> list of (key, excerpt) for every sanitizer report in stderr."""
    text = err.decode('utf-8', 'replace')
    lines = text.split('\n')
    out = []
    for i, l in enumerate(lines):
        m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', l)
        if m:
            kind = m.group(1)
            fr = _frames(lines, i + 1)
            if 'requested allocation size' in l or 'out-of-memory' in l or 'allocator is out of memory' in l:
                kind = 'oom'
            out.append(('asan:%s:%s' % (kind, _own(fr)), '\n'.join(lines[i:i + 25])))
            continue
        m = re.search(r'^(\S+?):(\d+):(\d+): runtime error: (.*)$', l)
        if m:
            msg = re.sub(r'-?\d+(\.\d+)?(e[+-]?\d+)?', 'N', m.group(4))
            fr = _frames(lines, i + 1)
            out.append(('ubsan:%s:%s:%s' % (os.path.basename(m.group(1)), _own(fr), msg[:60]),
                        '\n'.join(lines[i:i + 10])))
        if 'hard rss limit exhausted' in l:
            out.append(('rss-limit', l))
        m = re.search(r'Assertion `(.*)\' failed', l)
        if m:
            out.append(('assert:' + m.group(1)[:80], l))
    return out


# --------------------------------------------------------------------- verdict
class Check:
    def __init__(self, prop, level='exploration', rule=''):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.rule = rule
        self.samples = []
        self.counters = {}
        self.assumptions = []
        self.viol = []          # (key, message, payload)
        self.inconclusive = []
        self.known = self._load_known()
        self.known_hit = {}
        self.replay_dir = os.path.join(BUILD, 'replay', prop)

    def _load_known(self):
        k = {}
        p = os.path.join(VERIF, 'known_findings.jsonl')
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if not line or line.startswith('#'):
                    continue
                d = json.loads(line)
                if d.get('status') == 'known' and self.prop in d['property'].split(','):
                    k[d['key']] = d
        return k

    def n(self, quick, thorough=None):
        """case count for the tier"""
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def eval(self, fingerprint=None, n=1):
        self.evaluations += n
        if fingerprint is not None:
            self.distinct.add(fingerprint if isinstance(fingerprint, (int, str, tuple))
                              else hashlib.md5(fingerprint).hexdigest())

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, msg, payload=None):
        """key identifies the specific failing input / site."""
        if key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        if len(self.viol) < 200:
            self.viol.append((key, msg, payload))

    def sanitize(self, r, what, payload=None, ok_rc=(0,), key_prefix=''):
        """Turn sanitizer reports and abnormal ends of a run into violations.
        Returns True if clean."""
        clean = True
        for key, exc in r.reports:
            clean = False
            self.violation(key_prefix + key, '%s: %s' % (what, exc), payload)
        if r.timeout:
            self.violation(key_prefix + 'hang', '%s: does not terminate within its time limit' % what, payload)
            return False
        if not r.reports and ok_rc is not None and r.rc not in ok_rc:
            clean = False
            self.violation(key_prefix + 'exit:%d' % r.rc,
                           '%s: ended with status %d: %s' % (what, r.rc, r.err[-600:].decode('utf-8', 'replace')),
                           payload)
        return clean

    def finish(self):
        wall = time.time() - self.t0
        cov = {'evaluations': self.evaluations,
               'distinct_nontrivial': len(self.distinct),
               'rule': self.rule,
               'samples': self.samples,
               'observed': self.counters,
               'inconclusive': self.inconclusive[:20]}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(wall, 2),
              'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for key in sorted(self.known_hit):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, self.known[key]['what']))
        for s in self.inconclusive[:10]:
            print('inconclusive: ' + s)
        if self.viol:
            shutil.rmtree(self.replay_dir, ignore_errors=True)
            os.makedirs(self.replay_dir, exist_ok=True)
            seen = set()
            i = 0
            for key, msg, payload in self.viol:
                if key in seen:
                    continue
                seen.add(key)
                path = os.path.join(self.replay_dir, 'v%d.txt' % i)
                with open(path, 'w') as f:
                    f.write('property: %s\nkey: %s\nseed: %d tier: %s\n%s\n' %
                            (self.prop, key, self.seed, self.tier, msg))
                    if payload is not None:
                        f.write('--- payload ---\n')
                        f.write(payload if isinstance(payload, str) else repr(payload))
                        f.write('\n')
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('  key=%s %s' % (key, msg[:300].replace('\n', ' | ')))
                i += 1
                if i >= 12:
                    break
            sys.stdout.flush()
            return 1
        if self.evaluations == 0 or len(self.distinct) == 0:
            print('no observations made')
            return 3
        print('%s: held on %d evaluations (%d distinct non-trivial), %.1f s; %s' %
              (self.prop, self.evaluations, len(self.distinct), wall,
               ' '.join('%s=%s' % kv for kv in sorted(self.counters.items()))))
        return 0


def pmap(fn, items, workers=None):
    """Run fn over items in threads (the work is in subprocesses); ordered."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(workers or JOBS) as ex:
        return list(ex.map(fn, items))


def scratch(name):
    d = os.path.join(BUILD, 'scratch', '%s.%d' % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def main(modname):
    import importlib
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    m = importlib.import_module(modname)
    try:
        rc = m.main()
    except HarnessError as e:
        print('harness error: %s' % e)
        rc = 4
    sys.exit(rc)
