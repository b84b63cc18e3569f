// Text form of interface calls, shared by the RIB harnesses.
//   name \t arg \t arg ...
// i<dec>  f<8 hex>  s<hex>  I<n>,..  F<n>,<hex>..  S<n>,<hex>..  p<name>
// P<iclass>.<type>.<len>:<namehex>:<array>;...
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <list>
#include <aqsis/riutil/ricxx.h>
#include <aqsis/riutil/ricxxutil.h>

static void fatal(const std::string& s) { fprintf(stderr, "HARNESS: %s\n", s.c_str()); fflush(stdout); exit(77); }

inline std::string hexOf(const char* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    std::string r; r.reserve(2*n);
    for(size_t i = 0; i < n; ++i) { unsigned char c = p[i]; r += d[c>>4]; r += d[c&15]; }
    return r;
}
inline std::string unhex(const std::string& s)
{
    std::string r; r.reserve(s.size()/2);
    auto v = [](char c) { return c <= '9' ? c-'0' : c-'a'+10; };
    for(size_t i = 0; i+1 < s.size(); i += 2) r += char(v(s[i])*16 + v(s[i+1]));
    return r;
}
inline std::vector<std::string> split(const std::string& s, char d)
{
    std::vector<std::string> r; size_t b = 0;
    for(;;) { size_t e = s.find(d, b); if(e == std::string::npos) { r.push_back(s.substr(b)); break; }
        r.push_back(s.substr(b, e-b)); b = e+1; }
    return r;
}
inline float bitsf(const std::string& h) { unsigned u = strtoul(h.c_str(), 0, 16); float f; memcpy(&f, &u, 4); return f; }

const char* filterName(RtFilterFunc f);
const char* errorName(RtErrorFunc f);
const char* subdivName(RtProcSubdivFunc f);
RtFilterFunc filterByName(const char* n);
RtErrorFunc errorByName(const char* n);
RtProcSubdivFunc subdivByName(const char* n);
extern long g_procLive;
void freeCounted(RtPointer p);

struct Log
{
    std::string cur; std::vector<std::string> lines;
    static std::string F(float f) { unsigned u; memcpy(&u, &f, 4); char b[16]; sprintf(b, "%08x", u); return b; }
    void begin(const char* n) { cur = n; }
    void end() { lines.push_back("L " + cur); }
    void i(int v) { cur += "\ti" + std::to_string(v); }
    void f(float v) { cur += "\tf" + F(v); }
    void s(const char* v) { cur += "\t"; if(v) cur += "s" + hexOf(v, strlen(v)); else cur += "n"; }
    void func(const char* n) { cur += "\tp"; cur += n ? n : "?"; }
    void cb(void* p) { if(p) cur += "\tcb"; }
    std::string arrF(const float* p, size_t n) { std::string r = "F" + std::to_string(n); for(size_t k = 0; k < n; ++k) r += "," + F(p[k]); return r; }
    std::string arrI(const int* p, size_t n) { std::string r = "I" + std::to_string(n); for(size_t k = 0; k < n; ++k) r += "," + std::to_string(p[k]); return r; }
    template<class A> std::string arrS(const A& a) { std::string r = "S" + std::to_string(a.size()); for(size_t k = 0; k < a.size(); ++k) r += "," + hexOf(a[k], strlen(a[k])); return r; }
    void fa(const float* p, size_t n) { cur += "\t" + arrF(p, n); }
    void ia(const Aqsis::Ri::IntArray& a) { cur += "\t" + arrI(a.begin(), a.size()); }
    void sa(const Aqsis::Ri::StringArray& a) { cur += "\t" + arrS(a); }
    void plist(const Aqsis::Ri::ParamList& p)
    {
        cur += "\tP";
        for(size_t k = 0; k < p.size(); ++k)
        {
            const Aqsis::Ri::Param& q = p[k];
            if(k) cur += ";";
            char b[64]; sprintf(b, "%d.%d.%d:", (int)q.spec().iclass, (int)q.spec().type, q.spec().arraySize);
            cur += b; cur += hexOf(q.name(), strlen(q.name())) + ":";
            switch(q.spec().storageType())
            {
                case Aqsis::Ri::TypeSpec::Float: cur += arrF(q.floatData().begin(), q.size()); break;
                case Aqsis::Ri::TypeSpec::Integer: cur += arrI(q.intData().begin(), q.size()); break;
                case Aqsis::Ri::TypeSpec::String: cur += arrS(q.stringData()); break;
                default: cur += "?"; break;
            }
        }
    }
    void procedural(RtPointer data, RtConstBound bound, RtProcSubdivFunc fn)
    {
        const char* n = subdivName(fn);
        func(n);
        size_t cnt = !n ? 0 : !strcmp(n, "DelayedReadArchive") ? 1 : 2;
        cur += "\t" + arrS(Aqsis::Ri::StringArray(static_cast<RtConstString*>((void*)data), cnt));
        fa(bound, 6);
    }
};

// A call read from text; owns all the storage its arguments refer to.
struct Call
{
    std::string name;
    struct V { char k; std::string s; std::vector<int> iv; std::vector<float> fv; std::vector<std::string> sv; std::vector<const char*> sp; int i; float f; };
    std::list<V> store; std::vector<V*> a;
    struct P { Aqsis::Ri::TypeSpec spec; std::string name, tok; V* v; };
    std::vector<P> params; std::vector<Aqsis::Ri::Param> plst;
    std::vector<RtToken> tk; std::vector<RtPointer> vl;

    V* val(const std::string& t)
    {
        store.push_back(V()); V* v = &store.back(); v->k = t.empty() ? '?' : t[0];
        std::string r = t.size() ? t.substr(1) : "";
        switch(v->k)
        {
            case 'i': v->i = atoi(r.c_str()); break;
            case 'f': v->f = bitsf(r); break;
            case 's': v->s = unhex(r); break;
            case 'p': v->s = r; break;
            case 'I': case 'F': case 'S':
            {
                std::vector<std::string> p = split(r, ',');
                for(size_t k = 1; k < p.size(); ++k)
                {
                    if(v->k == 'I') v->iv.push_back(atoi(p[k].c_str()));
                    else if(v->k == 'F') v->fv.push_back(bitsf(p[k]));
                    else v->sv.push_back(unhex(p[k]));
                }
                // exact-size heap blocks, so that overreads are seen
                v->iv.shrink_to_fit(); v->fv.shrink_to_fit();
                for(size_t k = 0; k < v->sv.size(); ++k) v->sp.push_back(v->sv[k].c_str());
                break;
            }
            default: fatal("bad value " + t);
        }
        return v;
    }
    explicit Call(const std::string& line)
    {
        std::vector<std::string> t = split(line, '\t');
        name = t[0];
        for(size_t k = 1; k < t.size(); ++k)
        {
            if(!t[k].empty() && t[k][0] == 'P')
            {
                if(t[k].size() == 1) continue;
                std::vector<std::string> ps = split(t[k].substr(1), ';');
                for(size_t j = 0; j < ps.size(); ++j)
                {
                    std::vector<std::string> f = split(ps[j], ':');
                    int ic, ty, al; if(sscanf(f[0].c_str(), "%d.%d.%d", &ic, &ty, &al) != 3) fatal("bad param");
                    P p; p.spec = Aqsis::Ri::TypeSpec((Aqsis::Ri::TypeSpec::IClass)ic, (Aqsis::Ri::TypeSpec::Type)ty, al);
                    p.name = unhex(f[1]); p.v = val(f[2]);
                    p.tok = f.size() > 3 ? unhex(f[3]) : p.name;
                    params.push_back(p);
                }
            }
            else if(!t[k].empty() && t[k] == "cb") continue;
            else a.push_back(val(t[k]));
        }
        for(size_t j = 0; j < params.size(); ++j)
        {
            P& p = params[j]; const void* d = 0; size_t n = 0;
            switch(p.v->k) { case 'I': d = p.v->iv.data(); n = p.v->iv.size(); break;
                case 'F': d = p.v->fv.data(); n = p.v->fv.size(); break;
                default: d = p.v->sp.data(); n = p.v->sp.size(); break; }
            plst.push_back(Aqsis::Ri::Param(p.spec, p.name.c_str(), d, n));
            tk.push_back(const_cast<char*>(p.tok.c_str())); vl.push_back(const_cast<void*>(d));
        }
    }
    Call(const Call&) = delete;
    V* at(size_t k) { if(k >= a.size()) fatal("missing arg in " + name); return a[k]; }
    int i(int k) { return at(k)->i; }
    float f(int k) { return at(k)->f; }
    const char* str(int k) { return at(k)->s.c_str(); }
    Aqsis::Ri::FloatArray fa(int k) { V* v = at(k); return Aqsis::Ri::FloatArray(v->fv.data(), v->fv.size()); }
    Aqsis::Ri::IntArray ia(int k) { V* v = at(k); return Aqsis::Ri::IntArray(v->iv.data(), v->iv.size()); }
    Aqsis::Ri::StringArray sa(int k) { V* v = at(k); return Aqsis::Ri::StringArray(v->sp.data(), v->sp.size()); }
    Aqsis::Ri::ParamList plist() { return plst.empty() ? Aqsis::Ri::ParamList() : Aqsis::Ri::ParamList(plst.data(), plst.size()); }
    int np() { return plst.size(); }
    RtToken* toks() { return tk.data(); } RtPointer* vals() { return vl.data(); }
    RtToken tok(int k) { return tk[k]; } RtPointer val(int k) { return vl[k]; }
    void* procData(int k)
    {
        V* v = at(k); size_t n = v->sv.size()*sizeof(char*);
        for(auto& s : v->sv) n += s.size()+1;
        char** p = (char**)malloc(n ? n : 1); ++g_procLive; char* q = (char*)(p + v->sv.size());
        for(size_t j = 0; j < v->sv.size(); ++j) { p[j] = q; strcpy(q, v->sv[j].c_str()); q += v->sv[j].size()+1; }
        return p;
    }
};
struct Handles { std::map<std::string, RtObjectHandle> obj; std::map<std::string, RtLightHandle> light; RtArchiveCallback cb; Handles() : cb(0) {} };
