#!/usr/bin/env python3
"""Generates ri_gen.h (recording renderer, replay into C++ and C interfaces)
from spec/ri.xml.  The output is committed; rerun only when the spec changes."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import rispec
procs = rispec.load()
FIX = {'RtColor': 3, 'RtPoint': 3, 'RtBound': 6, 'RtMatrix': 16, 'RtBasis': 16}


def ctype(t):
    if t.endswith('Array'):
        return 'const %sArray&' % t[2:-5]
    return re.sub(r'^Rt(Token|String|Color|Point(?!er)|Matrix|Bound|Basis)$', r'RtConst\1', t)


def decl(p):
    a = ['%s %s' % (ctype(x.type), x.name) for x in p.args]
    if p.plist:
        a.append('const ParamList& pList')
    return 'RtVoid %s(%s)' % (p.name, ', '.join(a))


o = []
w = o.append
w('// generated by gen_ri.py from spec/ri.xml')
w('struct Rec : public Aqsis::Ri::Renderer {')
w('  Log& log; int ncol; explicit Rec(Log& l) : log(l), ncol(3) {}')
for p in procs:
    w('  virtual %s {' % decl(p))
    w('    log.begin("%s");' % p.name)
    if p.name == 'Procedural':
        w('    log.procedural(data, bound, refineproc); log.end(); if(freeproc) freeproc(data);')
        w('  }')
        continue
    for a in p.args:
        t = a.type
        if t in ('RtInt', 'RtBoolean'):
            w('    log.i(%s);' % a.name)
        elif t == 'RtFloat':
            w('    log.f(%s);' % a.name)
        elif t in ('RtString', 'RtToken'):
            w('    log.s(%s);' % a.name)
        elif t == 'RtColor':
            w('    log.fa(reinterpret_cast<const RtFloat*>(%s), ncol);' % a.name)
        elif t in FIX:
            w('    log.fa(reinterpret_cast<const RtFloat*>(%s), %d);' % (a.name, FIX[t]))
        elif t in ('RtIntArray',):
            w('    log.ia(%s);' % a.name)
        elif t in ('RtFloatArray',):
            w('    log.fa(%s.begin(), %s.size());' % (a.name, a.name))
        elif t in ('RtStringArray', 'RtTokenArray'):
            w('    log.sa(%s);' % a.name)
        elif t == 'RtFilterFunc':
            w('    log.func(filterName(%s));' % a.name)
        elif t == 'RtErrorFunc':
            w('    log.func(errorName(%s));' % a.name)
        elif t == 'RtArchiveCallback':
            w('    log.cb((void*)%s);' % a.name)
        else:
            raise Exception(t)
    if p.plist:
        w('    log.plist(pList);')
    w('    log.end();')
    if p.name == 'ColorSamples':
        w('    ncol = nRGB.size()/3;')
    w('  }')
w('  virtual RtVoid ArchiveRecord(RtConstToken type, const char* string) {')
w('    log.begin("ArchiveRecord"); log.s(type); log.s(string); log.end(); }')
w('};')

# replay into C++
w('static void dispatchCxx(Aqsis::Ri::Renderer& r, Aqsis::Ri::RendererServices& sv, Call& c) {')
w('  const std::string& n = c.name; int k = 0; (void)k;')
for p in procs:
    w('  if(n == "%s") {' % p.name)
    args = []
    if p.name == 'Procedural':
        w('    RtProcSubdivFunc fn = sv.getProcSubdivFunc(c.str(0));')
        w('    void* data = c.procData(1); r.Procedural(data, c.fa(2).begin(), fn, &freeCounted); return; }')
        continue
    i = 0
    for a in p.args:
        t = a.type
        if t in ('RtInt', 'RtBoolean'):
            args.append('c.i(%d)' % i)
        elif t == 'RtFloat':
            args.append('c.f(%d)' % i)
        elif t in ('RtString', 'RtToken'):
            args.append('c.str(%d)' % i)
        elif t in ('RtColor', 'RtPoint', 'RtBound'):
            args.append('c.fa(%d).begin()' % i)
        elif t in ('RtMatrix', 'RtBasis'):
            args.append('*reinterpret_cast<RtConstMatrix*>(c.fa(%d).begin())' % i)
        elif t == 'RtIntArray':
            args.append('c.ia(%d)' % i)
        elif t == 'RtFloatArray':
            args.append('c.fa(%d)' % i)
        elif t in ('RtStringArray', 'RtTokenArray'):
            args.append('c.sa(%d)' % i)
        elif t == 'RtFilterFunc':
            args.append('sv.getFilterFunc(c.str(%d))' % i)
        elif t == 'RtErrorFunc':
            args.append('sv.getErrorFunc(c.str(%d))' % i)
        elif t == 'RtArchiveCallback':
            args.append('0')
            continue
        else:
            raise Exception(t)
        i += 1
    if p.plist:
        args.append('c.plist()')
    w('    r.%s(%s); return; }' % (p.name, ', '.join(args)))
w('  if(n == "ArchiveRecord") { r.ArchiveRecord(c.str(0), c.str(1)); return; }')
w('  fatal("unknown request " + n);')
w('}')

# replay into the C binding
w('#ifdef WITH_C_API')
w('static void dispatchC(Call& c, Handles& h, bool varargs) {')
w('  const std::string& n = c.name;')
for p in procs:
    w('  if(n == "%s") {' % p.name)
    ai = {}
    i = 0
    for a in p.args:
        if a.type == 'RtArchiveCallback':
            continue
        ai[a.name] = i
        i += 1
    if p.name == 'Procedural':
        w('    RiProcedural(c.procData(1), const_cast<RtFloat*>(c.fa(2).begin()), subdivByName(c.str(0)), &freeCounted); return; }')
        continue
    if p.name == 'ObjectBegin':
        w('    h.obj[c.str(0)] = RiObjectBegin(); return; }')
        continue
    if p.name == 'ObjectInstance':
        w('    RiObjectInstance(h.obj[c.str(0)]); return; }')
        continue
    if p.name == 'Illuminate':
        w('    RiIlluminate(h.light[c.str(0)], c.i(1)); return; }')
        continue
    args = []
    for a in p.cargs:
        t = a.type
        if a.name not in ai:
            if t == 'RtArchiveCallback':
                args.append('h.cb')
            elif a.ribvalue is not None:
                e = a.ribvalue
                for nm, idx in ai.items():
                    src = [x for x in p.args if x.name == nm][0]
                    acc = {'RtIntArray': 'c.ia(%d)', 'RtFloatArray': 'c.fa(%d)',
                           'RtStringArray': 'c.sa(%d)', 'RtTokenArray': 'c.sa(%d)'}.get(src.type)
                    if acc:
                        e = re.sub(r'\b%s\b' % nm, acc % idx, e)
                e = e.replace('pList', 'c.plist()')
                args.append('(RtInt)(%s)' % e)
            else:
                raise Exception(p.name + a.name)
            continue
        k = ai[a.name]
        if t in ('RtInt', 'RtBoolean'):
            args.append('c.i(%d)' % k)
        elif t == 'RtFloat':
            args.append('varargs ? c.f(%d) : c.f(%d)' % (k, k))
        elif t in ('RtString', 'RtToken'):
            args.append('const_cast<char*>(c.str(%d))' % k)
        elif t in ('RtColor', 'RtPoint', 'RtBound'):
            args.append('const_cast<RtFloat*>(c.fa(%d).begin())' % k)
        elif t in ('RtMatrix', 'RtBasis'):
            args.append('*reinterpret_cast<RtMatrix*>(const_cast<RtFloat*>(c.fa(%d).begin()))' % k)
        elif t == 'RtIntArray':
            args.append('const_cast<RtInt*>(c.ia(%d).begin())' % k)
        elif t == 'RtFloatArray':
            args.append('const_cast<RtFloat*>(c.fa(%d).begin())' % k)
        elif t in ('RtStringArray', 'RtTokenArray'):
            args.append('const_cast<char**>(c.sa(%d).begin())' % k)
        elif t == 'RtFilterFunc':
            args.append('filterByName(c.str(%d))' % k)
        elif t == 'RtErrorFunc':
            args.append('errorByName(c.str(%d))' % k)
        else:
            raise Exception(t)
    pre = ''
    if p.name in ('LightSource', 'AreaLightSource'):
        pre = 'h.light[c.str(1)] = '
    if not p.plist:
        w('    %s%s(%s); return; }' % (pre, p.cname, ', '.join(args)))
        continue
    j = ', '.join(args)
    if j:
        j += ', '
    w('    int np = c.np();')
    w('    if(!varargs || np > 4) { %s%sV(%snp, c.toks(), c.vals()); return; }' % (pre, p.cname, j))
    w('    switch(np) {')
    for m in range(5):
        va = ''.join('c.tok(%d), c.val(%d), ' % (q, q) for q in range(m))
        w('      case %d: %s%s(%s%sRI_NULL); return;' % (m, pre, p.cname, j, va))
    w('    } }')
w('  if(n == "ArchiveRecord") { RiArchiveRecord(const_cast<char*>(c.str(0)), const_cast<char*>("%s"), c.str(1)); return; }')
w('  fatal("unknown request " + n);')
w('}')
w('#endif')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ri_gen.h'), 'w').write('\n'.join(o) + '\n')
