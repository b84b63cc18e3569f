"""C18: the shader compiler's account of what it did, and compiled shaders' account of themselves."""
import glob, os, re, shutil
import vlib, slref

TOK = ['{', '}', '(', ')', ';', ',', '"', '#', 'float', 'color', 'if', 'while', 'for', 'return', '=', '+=', '*=', '.', '^', '!', '&&', '||', '<', '>=', '==', '1e400', '1e-400', '99999999999',
       '-', '"world"', 'surface', 'light', 'imager', 'illuminance', 'illuminate', 'solar', 'gather', 'extern', 'output', 'varying', 'uniform', 'string', 'matrix', 'void', 'normal', '[3]', '[-1]', '[0]', '[',
       ']', '?', ':', 'texture', 'environment', 'shadow', 'noise', 'sin', 'mix', 'spline', 'printf', 'format', 'attribute', 'option', 'textureinfo', 'rendererinfo', 'surface foo', '#include "x"', '#define A(', '#if 1', '#else',
       '#endif', '\n#line 7 "b.sl"\n', '#pragma x', '\\', '\\\n', '/*', '*/', '//', 'break', 'continue', '@', '$', '\0', '\xe9', "'", '\r\n', '\x1a', '(float)', 'point "', 'color "hsv" (1,2,3)', '((', '))', '{}', 'P', 'Ci', 'L', 'Cl', 'PI', 'AQSIS']


def aqsl():
    return vlib.binpath('tools/aqsl/aqsl')


def mutate(r, s):
    toks = re.findall(r'\w+|\s+|[^\w\s]', s)
    for _ in range(r.choice([1, 1, 1, 2, 3, 8])):
        if not toks:
            break
        k = r.random()
        i = r.randrange(len(toks))
        if k < .25:
            del toks[i]
        elif k < .45:
            toks.insert(i, ' ' + r.choice(TOK) + ' ')
        elif k < .65:
            toks[i] = r.choice(TOK)
        elif k < .8:
            toks[i] = r.choice(toks)
        elif k < .88:
            toks[i:min(len(toks), i + r.randint(1, 30))] = []
        elif k < .93:
            toks = toks[:i]
        elif k < .97:
            toks[i:i] = toks[i:min(len(toks), i + r.randint(1, 10))]
        else:
            toks[i:i] = [r.choice(['(', '{', '-', '((float)', 'if(1) ', '[', '1+', '"', 'a(']) * r.choice([5, 60, 300])]
    return ''.join(toks)


def located(err):
    """[(file, line)] of the errors reported"""
    t = err.decode('utf-8', 'replace')
    L = [(m.group(1), int(m.group(2))) for m in re.finditer(r'ERROR: (.+?) : (\d+) : ', t)]
    L += [(m.group(1), int(m.group(2))) for m in re.finditer(r'(?:^|\s)(\S[^\n]*?)\((\d+)\): (?:fatal error|error|exception caught|unexpected exception)', t)]
    return L


def noshader(cmd, w):
    """whether the source, once preprocessed, defines no shader"""
    p = cmd[-1] + '.pp'
    vlib.run(cmd[:1] + ['-d'] + cmd[1:], cwd=w, timeout=60)
    p = os.path.join(w, p)
    if not os.path.exists(p):
        return False
    t = re.sub(r'"(?:[^"\\\n]|\\.)*"', '""', open(p, errors='replace').read())
    return not re.search(r'\b(surface|displacement|light|volume|imager|transformation)\s+\w+\s*\(', t)


def wrong(r, out):
    """what is inconsistent in the account of one compilation"""
    ok = os.path.exists(out) and os.path.getsize(out) > 0
    t = r.err.decode('utf-8', 'replace')
    said = 'ERROR' in t or 'error:' in t or 'exception caught' in t or 'Could not open' in t
    if (r.rc == 0) != ok:
        return 'exit status %d, but the output %s' % (r.rc, 'was written' if ok else 'was not written')
    if r.rc == 0 and said:
        return 'exit status 0 after reporting an error: ' + t[-300:]
    if r.rc and not said and 'warning:' not in t:
        return 'exit status %d without an error message: %s' % (r.rc, t[-300:])
    return None


def hostile(chk, d, n):
    r = chk.rng
    srcs = []
    for f in sorted(glob.glob(vlib.REPO + '/**/*.sl', recursive=True)):
        if os.path.getsize(f) < 6000:
            srcs.append((os.path.dirname(f), open(f, errors='replace').read()))
    for k in range(60):
        srcs.append((d, slref.Program(r, 'h%d' % k).text))
    cases = []
    for k in range(n):
        inc, s = r.choice(srcs)
        if r.random() < .03:
            s = ''.join(chr(r.randrange(256)) for _ in range(r.randint(0, 400)))
        else:
            s = mutate(r, s)
        cases.append((k, inc, s, r.random() < .3))

    def go(c):
        k, inc, s, old = c
        w = os.path.join(d, 'm%d' % k)
        os.makedirs(w)
        p, o = os.path.join(w, 'a.sl'), os.path.join(w, 'a.slx')
        with open(p, 'wb') as f:
            f.write(s.encode('latin1', 'replace'))
        cmd = [aqsl(), '-i', inc, '-o', o, p]
        x = vlib.run(cmd, cwd=w, timeout=60)
        bad = wrong(x, o) if not x.reports and x.rc in (0, 1) else None
        if bad and x.rc == 0 and not os.path.exists(o) and noshader(cmd, w):
            bad = None
        if not bad and x.rc == 1 and not located(x.err) and b'warning:' not in x.err:
            bad = 'the error is given no file and line: ' + x.err.decode('utf-8', 'replace')[-300:]
        kept = None
        if x.rc == 1 and old:
            open(o, 'w').write('before')
            y = vlib.run([aqsl(), '-i', inc, '-o', o, p], cwd=w, timeout=60)
            kept = os.path.exists(o) and open(o, errors='replace').read() == 'before'
        tell = None
        if x.rc == 0 and not bad and os.path.exists(o):
            tell = vlib.run([vlib.binpath('tools/aqsltell/aqsltell'), o], cwd=w, timeout=60)
        shutil.rmtree(w)
        return x, bad, kept, tell
    for (k, inc, s, old), (x, bad, kept, tell) in zip(cases, vlib.pmap(go, cases)):
        if not chk.sanitize(x, 'compiling a hostile source', s, ok_rc=(0, 1)):
            continue
        if bad:
            chk.violation('account', bad, s)
        if kept is False:
            chk.violation('clobber', 'a failed compilation changed the output of an earlier one', s)
        if kept:
            chk.count('earlier_output_kept')
        if tell is not None:
            chk.count('hostile_accepted')
            chk.sanitize(tell, 'describing a shader compiled from a hostile source', s, ok_rc=(0,))
        else:
            chk.count('hostile_rejected')
        chk.eval(s.encode('latin1', 'replace'))


# statements with an error, placed on a line of their own
BAD = ['x = 1 + ;', 'undecl = 1;', 'x = undecl;', 'c1 = "str" * 2;', 'x = sin("a");', 'x = @;', 'float = 3;', 'return 1;', 'x = noise;', 'x(1);', 'x[2] = 1;', 'x = c1;', 'point p9 = "x";', 'matrix m9 = c1;', 'break 1 2;',
       'string s9 = 1;', 'x = mix(c1, c1);', 'normal = 1;', 'x = sin(;', 'x += ;', 'solar( { }', 'extern float zz9;', 'float fn9(float z) { z = 1; }', 'x = sin();', 'sin = 1;', 'sin += 1;', 'output x;', 'x = helper();',
       'x = helper(1, 2);', 'color q9 = color (1, 2);', 'float a9[];', 'float a9[2] = {1, 2, 3};', 'x = texture(1);', 'x = c1 * matrix 1;', 'vector v9 = vector "a";', ')']
BADPP = ['#error no', '#bad', '#include "missing.h"', '#if', '#endif', '#define', '#else', '#include', '#elif 1']
FILL = ['', '// a comment', '/* a comment */', '/* two\n   lines */', '#define M%d(a) ((a) * \\\n   2)', '#define N%d 3', '#if 0\n  @@ not seen\n#endif', '#ifdef AQSIS\n#define O%d 1\n#else\n#error bad\n#endif', '#include "h%d.h"', '#undef Q%d', '\\\n', '#pragma x%d']


def filler(r, ids, files):
    L = []
    for _ in range(r.randint(0, 4)):
        f = r.choice(FILL)
        if '%d' in f:
            ids[0] += 1
            k = ids[0]
            f = f % k
            if 'include' in f:
                files['h%d.h' % k] = r.choice(['', '\n', '// nothing\n', '#define I%d 1\n\n\n' % k, '/* a\n\nb */\n#define I%d 2\n' % k, 'float hf%d(float a)\n{\n    return a;\n}\n' % k])
        L.append(f)
    return L


def errsource(r, ids):
    """-> files, main text, file name and line of the error, statement"""
    files = {}
    pp = r.random() < .25
    bad = r.choice(BADPP if pp else BAD)
    where = r.choice(['body', 'body', 'body', 'func', 'header'])
    if bad in ('return 1;', 'output x;') and where != 'body':
        where = 'body'
    mark = '\x01'
    L = ['float helper(float q)', '{', '    return q * 2;', '}']
    body = ['    float x = 1;', '    color c1 = 2;']
    fbody = ['    float x = q;', '    color c1 = q;'] + [mark if where == 'func' else '    x = 2;'] + ['    return x;']
    if where == 'header':
        ids[0] += 1
        hn = 'e%d.h' % ids[0]
        hl = filler(r, ids, files)
        hl += ['void hh(output float x; output color c1;)', '{', '    x = 1;', mark, '    c1 = 2;', '}']
        ht = '\n'.join(hl) + '\n'
        files[hn] = ht
        L += ['#include "%s"' % hn]
    L += filler(r, ids, files)
    L += ['float other(float q)', '{'] + fbody + ['}'] + filler(r, ids, files)
    L += [r.choice(['surface', 'displacement', 'volume']) + ' sh(float a = 1;', '   color b = 2;)', '{'] + body
    for _ in range(r.randint(0, 5)):
        L += r.choice([['    x = x + 1;'], ['    if (x > 2)', '    {', '        x = 1;', '    }'], ['    c1 = c1 *', '        x;'], filler(r, ids, files)])
    if where == 'body':
        L += [mark]
    L += ['    x = helper(x);', '    c1 = x;', '}']
    text = '\n'.join(L) + '\n'
    name = 'a.sl'
    src = text
    if where == 'header':
        name = hn
        src = files[hn]
    line = src[:src.index(mark)].count('\n') + 1
    bad1 = bad if pp else '    ' + bad
    text = text.replace(mark, bad1)
    for k in files:
        files[k] = files[k].replace(mark, bad1)
    if r.random() < .2:
        text = text.replace('\n', '\r\n')
    return files, text, name, line, bad


def errors(chk, d, n):
    r = chk.rng
    ids = [0]
    cases = [(k,) + errsource(r, ids) for k in range(n)]

    def go(c):
        k, files, text, name, line, bad = c
        w = os.path.join(d, 'e%d' % k)
        os.makedirs(w)
        for f, t in files.items():
            open(os.path.join(w, f), 'w', newline='').write(t)
        open(os.path.join(w, 'a.sl'), 'w', newline='').write(text)
        x = vlib.run([aqsl(), '-o', 'a.slx', 'a.sl'], cwd=w, timeout=60)
        b = wrong(x, os.path.join(w, 'a.slx'))
        shutil.rmtree(w)
        return x, b
    for (k, files, text, name, line, bad), (x, b) in zip(cases, vlib.pmap(go, cases)):
        pay = text + ''.join('\n==== %s\n%s' % kv for kv in files.items())
        if not chk.sanitize(x, 'compiling an erroneous source', pay, ok_rc=(1,)):
            continue
        if b:
            chk.violation('account', b, pay)
            continue
        L = located(x.err)
        if not L or (os.path.basename(L[0][0]), L[0][1]) != (name, line):
            chk.violation('location', 'the error %r is on line %d of %s, reported: %s' % (bad, line, name, L[:2] or x.err[-300:]), pay)
        chk.count('errors_located')
        chk.count('in_header', name != 'a.sl')
        chk.eval(pay.encode())


# ------------------------------------------------------------------ parameters
TYPES = {'float': 1, 'color': 3, 'point': 3, 'vector': 3, 'normal': 3, 'matrix': 16, 'string': 0}


def num(r):
    v = r.choice([r.randint(-9, 99), round(r.uniform(-2, 2), 3), round(r.uniform(-1e3, 1e3), 1), r.uniform(0, 1) * 1e-3])
    t = repr(v) if isinstance(v, int) else ('%.6g' % v)
    return t, float(t)


def fexpr(r):
    if r.random() < .7:
        return num(r)
    k = r.randrange(7)
    if k == 0:
        return 'PI', 3.141592654
    if k == 1:
        a, b = r.randint(1, 9), r.randint(1, 9)
        return '%d/%d' % (a, b), a / b
    if k == 2:
        a, b, c = [r.randint(1, 9) for _ in 'abc']
        return '%d*%d-%d' % (a, b, c), a * b - c
    if k == 3:
        a, b = r.randint(1, 9), r.randint(1, 9)
        return '-(%d+%d)' % (a, b), -(a + b)
    if k == 4:
        return 'DEF1', 7.5
    if k == 5:
        return 'radians(180)', 3.14159265
    return 'max(2,%d)' % (r.randint(0, 5)), None


def default(r, ty):
    """-> text, list of components (or the string)"""
    if ty == 'string':
        s = ''.join(r.choice('abcXYZ 0189_./%:*()[]{}#;,') for _ in range(r.randint(0, 12)))
        return '"%s"' % s, s
    if ty == 'float':
        while 1:
            t, v = fexpr(r)
            if v is not None:
                return t, [v]
            m = int(t[6:-1])
            return t, [float(max(2, m))]
    if ty == 'matrix':
        if r.random() < .4:
            t, v = num(r)
            return t, [v if i % 5 == 0 else 0. for i in range(16)]
        a = [num(r) for _ in range(16)]
        return 'matrix (%s)' % ','.join(t for t, v in a), [v for t, v in a]
    if r.random() < .25:
        t, v = num(r)
        return t, [v] * 3
    a = [fexpr(r) for _ in range(3)]
    a = [(t, v if v is not None else float(max(2, int(t[6:-1])))) for t, v in a]
    pre = r.choice([ty, '', ty + (' "rgb"' if ty == 'color' else ' "current"')])
    return '%s (%s)' % (pre, ', '.join(t for t, v in a)), [v for t, v in a]


def params(r, k):
    """-> shader text, [(name, storage, detail, type, array length, [values])]"""
    P, decl = [], []
    kind = r.choice(['surface', 'displacement', 'light', 'volume', 'imager'])
    i = 0
    for _ in range(r.choice([0, 1, 2, 4, 8, 20])):
        ty = r.choice(list(TYPES))
        out = r.random() < .25
        det = r.choice(['', '', 'uniform', 'varying'])
        if ty == 'string' and det == 'varying':
            det = ''
        items = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            nm = r.choice(['p%d', 'Param_%d', 'x%d', 'a_long_parameter_name_%d']) % i
            i += 1
            if r.random() < .25:
                n = r.choice([1, 2, 3, 5, 16])
                D = [default(r, ty) for _ in range(n)]
                items.append('%s[%d] = {%s}' % (nm, n, ', '.join(t for t, v in D)))
            else:
                n = 0
                D = [default(r, ty)]
                items.append('%s = %s' % (nm, D[0][0]))
            P.append((nm, 'output parameter' if out else 'parameter', det or 'uniform', ty, n, [v for t, v in D]))
        decl.append('%s%s %s %s;' % ('output ' if out else '', det, ty, ', '.join(items)))
    body = {'light': 'Cl = 1;', 'displacement': 'P += N;'}.get(kind, 'Ci = 1;')
    return kind, '#define DEF1 7.5\n%s s%d(%s)\n{\n  %s\n}\n' % (kind, k, '\n'.join(decl), body), P


def parse_tell(t):
    L = t.split('\n')
    m = re.match(r'(\w+) "(.*)"$', L[0])
    if not m:
        return None
    out = []
    for l in L[1:]:
        p = re.match(r'    "(.*?)" "(output parameter|parameter|\w+) (\w+) (\w+)(?:\[(\d+)\])?"$', l)
        q = re.match(r'\t\tDefault value: (.*)$', l)
        if p:
            out.append([p.group(1), p.group(2), p.group(3), p.group(4), int(p.group(5) or 0), []])
        elif q and out:
            v = q.group(1)
            ty = out[-1][3]
            if ty == 'string':
                out[-1][5].append(v[1:-1] if v[:1] == '"' == v[-1:] and len(v) > 1 else None)
            else:
                out[-1][5].append([float(x) for x in re.findall(r'[-+]?[\d.]+(?:e[-+]?\d+)?', v.split('"')[-1])])
        elif l.strip():
            return None
    return m.group(1), out


def same(a, b):
    if a[:5] != b[:5] or len(a[5]) != len(b[5]):
        return False
    for x, y in zip(a[5], b[5]):
        if isinstance(y, str):
            if x != y:
                return False
        elif x is None or len(x) != len(y) or any(abs(u - v) > 2e-5 * abs(v) + 1e-7 for u, v in zip(x, y)):
            return False
    return True


def describe(chk, d, n):
    r = chk.rng
    cases = [(k,) + params(r, k) for k in range(n)]

    def go(c):
        k, kind, text, P = c
        w = os.path.join(d, 'd%d' % k)
        os.makedirs(w)
        open(os.path.join(w, 's%d.sl' % k), 'w').write(text)
        x = vlib.run([aqsl(), 's%d.sl' % k], cwd=w, timeout=60)
        o = os.path.join(w, 's%d.slx' % k)
        b = wrong(x, o)
        y = None
        if not b and x.rc == 0:
            y = vlib.run([vlib.binpath('tools/aqsltell/aqsltell'), '-shaders=' + w, 's%d' % k] if k % 2 else [vlib.binpath('tools/aqsltell/aqsltell'), o], cwd=w, timeout=60)
        shutil.rmtree(w)
        return x, b, y
    for (k, kind, text, P), (x, b, y) in zip(cases, vlib.pmap(go, cases)):
        if not chk.sanitize(x, 'compiling a parameter list', text, ok_rc=(0, 1)):
            continue
        if b or x.rc:
            chk.violation('account', b or 'a legal shader is rejected: ' + x.err.decode('utf-8', 'replace')[-300:], text)
            continue
        if not chk.sanitize(y, 'describing a shader', text):
            continue
        T = parse_tell(y.out.decode('latin1'))
        if T is None:
            chk.violation('tell', 'the description of the shader cannot be understood: %r' % y.out[-300:], text)
            continue
        if T[0] != kind:
            chk.violation('tell', 'a %s shader is described as %s' % (kind, T[0]), text)
        got, want = T[1], [list(p) for p in P]
        if len(got) != len(want) or not all(map(same, got, want)):
            i = next((i for i, (a, c) in enumerate(zip(got, want)) if not same(a, c)), min(len(got), len(want)))
            chk.violation('tell', 'parameter %d is declared %s, described %s' % (i, want[i:i + 1], got[i:i + 1]), text)
        chk.count('parameters_described', len(P))
        chk.eval(text.encode() if P else None)


# ----------------------------------------------------- several files, layout, options
def relayout(r, s, tag):
    """the same program, laid out differently: comments, white space, line continuation, macros"""
    out = []
    depth = 0
    for l in s.split('\n'):
        if l.lstrip().startswith('#') or '"' in l and '\\' in l:
            out.append(l)
            continue
        toks = re.findall(r'"(?:[^"\\]|\\.)*"|[A-Za-z_]\w*|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[-+*/]=|[<>=!]=|&&|\|\||\S', l)
        t = ''
        for a in toks:
            t += a + r.choice([' '] * 6 + ['  ', '\t', '\n', ' /* c */ ', ' // x\n', ' \\\n', '\r\n'])
        out.append(t)
    pre = r.choice(['', '// first\n', '/* x */\n\n', '#define UNUSED%s(x) (x\\\n)\n' % tag, '#if 1\n'])
    return pre + '\n'.join(out) + ('\n#endif\n' if pre == '#if 1\n' else r.choice(['\n', '\n\n', '\n// end\n', '\n/* end */\n']))


# shaders that use few of the globals, so that what one of them uses is not what the next one does
GLOBALS = {'surface': {'color': ['Cs', 'Os'], 'point': ['P', 'E'], 'normal': ['N', 'Ng'], 'vector': ['I', 'dPdu', 'dPdv'], 'float': ['s', 't', 'u', 'v', 'du', 'dv', 'time', 'ncomps']},
           'displacement': {'point': ['P', 'P'], 'normal': ['N', 'Ng'], 'vector': ['dPdu', 'dPdv'], 'float': ['s', 't', 'u', 'v', 'du', 'dv', 'time']},
           'light': {'point': ['Ps', 'P'], 'normal': ['N', 'Ng'], 'vector': ['dPdu', 'dPdv'], 'float': ['s', 't', 'u', 'v', 'time']},
           'volume': {'color': ['Ci', 'Oi'], 'point': ['P'], 'vector': ['I'], 'float': ['time']},
           'imager': {'color': ['Ci', 'Oi'], 'point': ['P'], 'float': ['alpha', 'time']}}
RESULT = {'surface': 'Ci += c; Oi = 1;', 'displacement': 'P += N * comp(c, 1);', 'light': 'solar() { Cl = c; }', 'volume': 'Ci += c;', 'imager': 'Ci += c;'}


def sparse(r, nm):
    kind = r.choice(['surface', 'surface', 'surface', 'displacement', 'light', 'volume', 'imager'])
    G = GLOBALS[kind]
    body, head, params = [], [], []
    if r.random() < .5:
        fn = 'f%d' % r.randrange(3)
        head.append('float %s(float x; %s) { float y = x * %d; %s return y; }' % (fn, r.choice(['', 'float z;', 'output float z;']), r.randint(1, 9), r.choice(['', 'y += sin(x);', 'if (x > 2) y = 1; else y = 2;'])))
    for i in range(r.randint(0, 3)):
        params.append(r.choice(['float p%d = %d;', 'color p%d = %d;', 'uniform float p%d = %d;', 'varying float p%d = %d;', 'output varying color p%d = %d;', 'string p%d = "%d";', 'float p%d[2] = {%d, 3};', 'point p%d = point "world" (%d, 0, 1);']) % (i, r.randint(0, 9)))
    body.append('float w = %d; color c = 0;' % r.randint(0, 9))
    for i in range(r.randint(0, 4)):
        ty = r.choice(sorted(G))
        g = r.choice(G[ty])
        e = g if ty == 'float' else r.choice(['comp(%s, 0)', 'comp(%s, %s)' % ('%s', 'w')]) % g if ty == 'color' else r.choice(['xcomp(%s)', 'length(vector(%s))', 'zcomp(normalize(vector(%s)))']) % g
        body.append(r.choice(['c += color(%s);', 'c += %s;', 'w += %s;', 'if (%s > .5) c += 1;', 'float q' + str(i) + '[2] = {1, 2}; q' + str(i) + '[1] = %s; c += q' + str(i) + '[1];', 'while (w < 3) { w += 1; c += %s; }']) % e)
    if head:
        z = head[0].count('float z')
        body.append('c += %s(w%s);' % (fn, ', w' if z else ''))
    for p in params:
        n = p.split('=')[0].split()[-1]
        if r.random() < .6 and 'string' not in p:
            body.append('c += %s;' % (n[:2] + '[1]' if '[' in n else 'comp(%s, 0)' % n if 'color' in p else 'xcomp(%s)' % n if 'point' in p else n))
    return '\n'.join(head) + '\n%s %s(%s)\n{\n%s\n%s\n}\n' % (kind, nm, ' '.join(params), '\n'.join(body), RESULT[kind] if r.random() < .8 else '')


def several(chk, d, n):
    r = chk.rng
    cases = []
    for k in range(n):
        m = r.randint(2, 5)
        S = []
        for j in range(m):
            nm = 'v%d_%d' % (k, j)
            S.append([nm, slref.Program(r, nm).text if r.random() < .35 else sparse(r, nm), True])
        if r.random() < .6:
            j = r.randrange(m)
            S[j][1] = r.choice(['surface %s(float a = 1;) { a = ; }\n' % S[j][0], '#include "nothere"\n' + S[j][1], '#error\n', S[j][1][:len(S[j][1]) // 2], None])
            S[j][2] = False
        cases.append((k, S, relayout(r, S[0][1], k) if S[0][2] else None, r.randrange(1, 1 << 30)))

    def go(c):
        k, S, alt, seed = c
        w = os.path.join(d, 's%d' % k)
        one, all_, lay = [os.path.join(w, x) for x in ('one', 'all', 'lay')]
        for x in (one, all_, lay):
            os.makedirs(x)
        res, bad = [], None
        for nm, t, good in S:
            if t is not None:
                open(os.path.join(w, nm + '.sl'), 'w').write(t)
            x = vlib.run([aqsl(), os.path.join(w, nm + '.sl')], cwd=one, timeout=60)
            res.append(x)
            o = os.path.join(one, nm + '.slx')
            bad = bad or wrong(x, o)
            if (x.rc == 0) != good:
                bad = bad or '%s: exit status %d: %s' % (nm, x.rc, x.err.decode('utf-8', 'replace')[-300:])
        x = vlib.run([aqsl()] + [os.path.join(w, nm + '.sl') for nm, t, g in S], cwd=all_, timeout=60)
        res.append(x)
        if not bad:
            if (x.rc == 0) != all(g for _, _, g in S):
                bad = 'exit status %d of one run over several sources' % x.rc
            A = {f: open(os.path.join(one, f), 'rb').read() for f in os.listdir(one)}
            B = {f: open(os.path.join(all_, f), 'rb').read() for f in os.listdir(all_)}
            if A != B:
                bad = 'compiled in one run, %s differ from the same sources compiled one by one' % sorted(f for f in set(A) | set(B) if A.get(f) != B.get(f))
        if not bad and alt is not None:
            p = os.path.join(lay, S[0][0] + '.sl')
            open(p, 'w', newline='').write(alt)
            x = vlib.run([aqsl(), p], cwd=lay, timeout=60)
            res.append(x)
            o = os.path.join(lay, S[0][0] + '.slx')
            if x.rc or not os.path.exists(o) or open(o, 'rb').read() != open(os.path.join(one, S[0][0] + '.slx'), 'rb').read():
                bad = 'laid out differently, the shader compiles differently (exit status %d %s)' % (x.rc, x.err.decode('utf-8', 'replace')[-300:])
        shutil.rmtree(w)
        return res, bad
    for (k, S, alt, seed), (res, bad) in zip(cases, vlib.pmap(go, cases)):
        pay = '\n'.join('==== %s\n%s' % (nm, t) for nm, t, g in S) + '\n==== layout\n' + (alt or '')
        clean = True
        for x in res:
            clean = clean and chk.sanitize(x, 'compiling several sources', pay, ok_rc=(0, 1))
        if clean and bad:
            chk.violation('several', bad, pay)
        chk.count('runs_over_several', 1)
        chk.count('relayouts', alt is not None)
        chk.eval(pay.encode())


def options(chk, d, n):
    r = chk.rng
    cases = []
    for k in range(n):
        t, v = num(r)
        nm = r.choice(['VAL', 'X1', '_Y'])
        src = 'surface o%d(float a = %s; float b[2] = {1, %s};)\n{\n#ifdef FLAG\n  Ci = 1;\n#else\n  Ci = %s * a;\n#endif\n  Oi = INC(a);\n}\n'
        flag = r.random() < .5
        cases.append((k, '#include "%s"\n' % 'inc.h' + src % (k, nm, nm, nm), '#define INC(x) ((x)*2)\n' + src.replace(nm, nm) % (k, '%s', '%s', '%s') % ((t,) * 3) , nm, t, flag, r.random() < .3))

    def go(c):
        k, src, ref, nm, t, flag, undef = c
        w = os.path.join(d, 'o%d' % k)
        os.makedirs(os.path.join(w, 'inc'))
        open(os.path.join(w, 'inc', 'inc.h'), 'w').write('#define INC(x) ((x)*2)\n')
        open(os.path.join(w, 'a.sl'), 'w').write(src)
        open(os.path.join(w, 'b.sl'), 'w').write(('#define FLAG 1\n' if flag and not undef else '') + ref)
        cmd = [aqsl(), '-D', '%s=%s' % (nm, t), '-I', 'inc'] + (['-D', 'FLAG'] if flag else []) + (['-U', 'FLAG'] if undef else []) + ['-o', 'a.slx', 'a.sl']
        x = vlib.run(cmd, cwd=w, timeout=60)
        y = vlib.run([aqsl(), '-o', 'b.slx', 'b.sl'], cwd=w, timeout=60)
        bad = wrong(x, os.path.join(w, 'a.slx')) or wrong(y, os.path.join(w, 'b.slx'))
        if not bad and (x.rc or y.rc):
            bad = 'a legal shader is rejected: ' + (x.err + y.err).decode('utf-8', 'replace')[-300:]
        if not bad and open(os.path.join(w, 'a.slx'), 'rb').read() != open(os.path.join(w, 'b.slx'), 'rb').read():
            bad = '%s does not act as the #define' % cmd[1:-1]
        shutil.rmtree(w)
        return x, y, bad
    for c, (x, y, bad) in zip(cases, vlib.pmap(go, cases)):
        if chk.sanitize(x, 'compiling with options', c[1], ok_rc=(0, 1)) and chk.sanitize(y, 'compiling', c[2], ok_rc=(0, 1)) and bad:
            chk.violation('options', bad, c[1])
        chk.count('option_runs')
        chk.eval(c[1].encode())


def main():
    chk = vlib.Check('C18', rule='A case is one source (or set of sources) given to aqsl: a mutated shader, a shader with an error planted on a known line of a known file, a random parameter list read back with aqsltell, several sources in one '
                     'run against one by one, a source laid out differently, macros from the command line. Distinct by source text.')
    chk.assumptions = ['errors are recognised by the words ERROR / error: of the messages']
    vlib.build(['aqsl', 'aqsltell'])
    d = vlib.scratch('C18')
    try:
        errors(chk, d, chk.n(700, 8000))
        describe(chk, d, chk.n(500, 8000))
        several(chk, d, chk.n(60, 800))
        options(chk, d, chk.n(60, 600))
        hostile(chk, d, chk.n(1800, 40000))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for k, v in {'errors_located': 500, 'in_header': 50, 'parameters_described': 500, 'runs_over_several': 50, 'relayouts': 20, 'hostile_accepted': 100, 'hostile_rejected': 500, 'earlier_output_kept': 50}.items():
        if chk.counters.get(k, 0) < v and not chk.viol:
            raise vlib.HarnessError('too little was exercised: %s = %s' % (k, chk.counters.get(k, 0)))
    chk.sample(dict(sorted(chk.counters.items())))
    return chk.finish()
