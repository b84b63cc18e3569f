"""Running the instrumented renderer and reading the recording display."""
import os, shutil, threading
import numpy as np
import vlib

DT = {1: '<f4', 2: '<u4', 3: '<i4', 4: '<u2', 5: '<i2', 6: 'u1', 7: 'i1'}


class Display:
    """one open..close session of the recording display"""
    def __init__(self, driver, w, h):
        self.driver, self.w, self.h = driver, w, h
        self.offer, self.fmt, self.params, self.data = [], [], {}, []
        self.closed, self.refused = None, False

    def itemsize(self):
        return sum(np.dtype(DT[t]).itemsize for _, t in self.fmt)

    def assemble(self, W=None, H=None):
        """-> (channels {name: 2-d float64 array}, hit counts). The arrays cover
        the whole raster W x H; delivered pixels outside it count as stray."""
        org = self.params.get('origin', ('i', [0, 0]))[1]
        if W is None:
            W, H = self.params['OriginalSize'][1]
        cnt = np.zeros((H, W), int)
        ch = {n: np.full((H, W), np.nan) for n, _ in self.fmt}
        self.stray = 0
        dt = np.dtype([('%s' % n, DT[t]) for n, t in self.fmt])
        for x0, x1, y0, y1, es, raw in self.data:
            a = np.frombuffer(raw, dtype=dt).reshape(y1 - y0, x1 - x0)
            if x0 < 0 or y0 < 0 or x1 > W or y1 > H:
                self.stray += 1
                continue
            cnt[y0:y1, x0:x1] += 1
            for n, _ in self.fmt:
                ch[n][y0:y1, x0:x1] = a[n]
        return ch, cnt


class LogError(Exception):
    pass


def parse_log(path):
    """-> list of Display; raises LogError on events out of protocol"""
    b = open(path, 'rb').read()
    i, out, cur = 0, [], None
    while i < len(b):
        j = b.index(b'\n', i)
        f = b[i:j].decode('latin1').split(' ')
        i = j + 1
        if f[0] == 'open':
            if cur is not None:
                raise LogError('opened again before close')
            cur = Display(f[1], int(f[2]), int(f[3]))
            out.append(cur)
        elif cur is None:
            raise LogError('%s after close' % f[0])
        elif f[0] == 'offer':
            cur.offer.append((f[1], int(f[2])))
        elif f[0] == 'format':
            cur.fmt.append((f[1], int(f[2])))
        elif f[0] == 'param':
            if f[1] == '<null>':
                cur.params[None] = None
                continue
            v = f[4:4 + int(f[3])]
            v = [float(x) for x in v] if f[2] == 'f' else [int(x) for x in v] if f[2] == 'i' else \
                [bytes.fromhex(x[:-1]) for x in v]
            cur.params[f[1]] = (f[2], v)
        elif f[0] == 'data':
            x0, x1, y0, y1, es = map(int, f[1:])
            n = max(0, x1 - x0) * max(0, y1 - y0) * es
            if es != cur.itemsize():
                raise LogError('entry size %d for formats %s' % (es, cur.fmt))
            if x1 <= x0 or y1 <= y0:
                raise LogError('empty or inverted region %s' % f[1:])
            cur.data.append((x0, x1, y0, y1, es, b[i:i + n]))
            i += n
        elif f[0] == 'refused':
            cur.refused = True
            cur = None
        elif f[0] in ('close', 'delayclose'):
            cur.closed = f[0]
            cur = None
        else:
            raise LogError('garbage in log: %r' % f[:3])
    return out


class Env:
    """a scratch directory with a renderer configuration and compiled shaders"""
    DSPY = {'rec': 'harness/rec_dspy.so', 'file': 'tools/displays/file/file_dspy.so',
            'tiff': 'tools/displays/file/file_dspy.so', 'zfile': 'tools/displays/file/file_dspy.so',
            'shadow': 'tools/displays/file/file_dspy.so', 'exr': 'tools/displays/exr/exr_dspy.so',
            'bmp': 'tools/displays/sdcBMP/bmp_dspy.so', 'xpm': 'tools/displays/xpm/xpm_dspy.so'}

    def __init__(self, chk, name=None, shaders=None):
        self.chk = chk
        self.dir = vlib.scratch(name or chk.prop)
        self.sh = os.path.join(self.dir, 'shaders')
        os.makedirs(self.sh)
        self.n = 0
        self.lock = threading.Lock()
        if shaders:
            self.compile(shaders)

    def rc(self):
        disp = ' '.join('"string %s" ["%s"]' % (k, vlib.binpath(v)) for k, v in self.DSPY.items())
        return ('Option "display" %s "string debugdd" ["debugdd"]\n'
                'Option "searchpath" "string shader" ["%s:."] "string texture" [".:%s"] "string archive" ["."] '
                '"string display" ["/"] "string procedural" ["."]\n' % (disp, self.sh, self.dir))

    def compile(self, shaders):
        """shaders: {name: source}; a shader that does not compile is reported"""
        def one(kv):
            n, s = kv
            p = os.path.join(self.sh, n + '.sl')
            open(p, 'w').write(s)
            r = vlib.run([vlib.binpath('tools/aqsl/aqsl'), '-o', os.path.join(self.sh, n + '.slx'), p], cwd=self.sh)
            ok = os.path.exists(os.path.join(self.sh, n + '.slx'))
            return n, r, ok
        res = {}
        for n, r, ok in vlib.pmap(one, list(shaders.items())):
            res[n] = (r, ok)
            if not self.chk.sanitize(r, 'compiling ' + n, shaders[n]) or not ok:
                self.chk.violation('compile:' + n, 'shader %s does not compile: %s' % (n, r.text()[-500:]), shaders[n])
        return res

    def render(self, rib, args=(), files=None, timeout=120, keep=False, logs=True, asan_extra='', env=None):
        """Render a scene text in a directory of its own.
        -> (Result, {log name: [Display]}, directory)"""
        with self.lock:
            self.n += 1
            d = os.path.join(self.dir, 'r%d' % self.n)
        os.makedirs(d)
        open(os.path.join(d, '.aqsisrc'), 'w').write(self.rc())
        with open(os.path.join(d, 'scene.rib'), 'wb') as f:
            f.write(rib if isinstance(rib, bytes) else rib.encode('latin1'))
        for k, v in (files or {}).items():
            with open(os.path.join(d, k), 'wb') as f:
                f.write(v if isinstance(v, bytes) else v.encode('latin1'))
        r = vlib.run([vlib.binpath('tools/aqsis/aqsis'), '-nc', '-v', '1'] + list(args) + ['scene.rib'], cwd=d,
                     timeout=timeout, asan_extra=asan_extra, env=env)
        L = {}
        if logs:
            for fn in sorted(os.listdir(d)):
                if fn.endswith('.log'):
                    try:
                        L[fn[:-4]] = parse_log(os.path.join(d, fn))
                    except (LogError, ValueError) as e:
                        L[fn[:-4]] = e
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
        return r, L, d

    def messages(self, r):
        """renderer messages without the note on the missing system file"""
        return [l for l in r.err.decode('latin1').split('\n') if ('ERROR' in l or 'WARNING' in l or 'CRITICAL' in l or 'SEVERE' in l)
                and 'Could not open system config' not in l]

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
