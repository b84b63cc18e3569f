// Pipeline executor for the RIB / interface machinery: feeds call sequences or
// RIB bytes through the real components and logs everything that comes out.
#include <iostream>
#include <sstream>
#include <memory>
#include <boost/shared_ptr.hpp>
#include <aqsis/ri/ri.h>
#include <aqsis/riutil/ribwriter.h>
#include <aqsis/riutil/ribparser.h>
#include <aqsis/riutil/ricxx_filter.h>
#include <aqsis/riutil/ri2ricxx.h>
#include <aqsis/riutil/tokendictionary.h>
#include <aqsis/riutil/errorhandler.h>
#include <aqsis/util/exception.h>
#include <aqsis/util/logging.h>
#include "ri_call.h"
#define WITH_C_API
using namespace Aqsis;
typedef Ri::IntArray IntArray; typedef Ri::FloatArray FloatArray; typedef Ri::StringArray StringArray;
typedef Ri::TokenArray TokenArray; typedef Ri::ParamList ParamList;

long g_procLive = 0;
void freeCounted(RtPointer p) { --g_procLive; free(p); }

// distinct stand-ins for the standard functions
#define FF(n, v) extern "C" RtFloat Ri##n##Filter(RtFloat, RtFloat, RtFloat, RtFloat) { return v; }
FF(Gaussian,0) FF(Box,1) FF(Mitchell,2) FF(Triangle,3) FF(CatmullRom,4) FF(Sinc,5) FF(Disk,6) FF(Bessel,7)
extern "C" RtVoid RiProcFree(RtPointer d) { free(d); }
static int g_sink;
extern "C" RtVoid RiProcDelayedReadArchive(RtPointer, RtFloat) { g_sink = 1; }
extern "C" RtVoid RiProcRunProgram(RtPointer, RtFloat) { g_sink = 2; }
extern "C" RtVoid RiProcDynamicLoad(RtPointer, RtFloat) { g_sink = 3; }
extern "C" RtVoid RiErrorIgnore(RtInt, RtInt, RtString) { g_sink = 4; }
extern "C" RtVoid RiErrorPrint(RtInt, RtInt, RtString) { g_sink = 5; }
extern "C" RtVoid RiErrorAbort(RtInt, RtInt, RtString) { g_sink = 6; }
extern "C" RtVoid RiBegin(RtToken) {} extern "C" RtVoid RiEnd() {}
extern "C" RtContextHandle RiGetContext() { return 0; } extern "C" RtVoid RiContext(RtContextHandle) {}
namespace Aqsis { void riToRiCxxOptionPreBegin(RtToken, RtInt, RtToken*, RtPointer*) {} }

struct FN { const char* n; RtFilterFunc f; };
static FN filters[] = { {"box", RiBoxFilter}, {"gaussian", RiGaussianFilter}, {"triangle", RiTriangleFilter}, {"mitchell", RiMitchellFilter},
    {"catmull-rom", RiCatmullRomFilter}, {"sinc", RiSincFilter}, {"bessel", RiBesselFilter}, {"disk", RiDiskFilter} };
const char* filterName(RtFilterFunc f) { for(FN& x : filters) if(x.f == f) return x.n; return 0; }
RtFilterFunc filterByName(const char* n) { for(FN& x : filters) if(!strcmp(x.n, n)) return x.f; return 0; }
const char* errorName(RtErrorFunc f) { return f == RiErrorIgnore ? "ignore" : f == RiErrorPrint ? "print" : f == RiErrorAbort ? "abort" : 0; }
RtErrorFunc errorByName(const char* n) { return !strcmp(n, "ignore") ? RiErrorIgnore : !strcmp(n, "print") ? RiErrorPrint : !strcmp(n, "abort") ? RiErrorAbort : 0; }
const char* subdivName(RtProcSubdivFunc f) { return f == RiProcDelayedReadArchive ? "DelayedReadArchive" : f == RiProcRunProgram ? "RunProgram" : f == RiProcDynamicLoad ? "DynamicLoad" : 0; }
RtProcSubdivFunc subdivByName(const char* n) { return !strcmp(n, "DelayedReadArchive") ? RiProcDelayedReadArchive : !strcmp(n, "RunProgram") ? RiProcRunProgram : !strcmp(n, "DynamicLoad") ? RiProcDynamicLoad : 0; }

#include "ri_gen.h"

struct LogErr : public Ri::ErrorHandler
{
    Log& log; explicit LogErr(Log& l) : ErrorHandler(Debug), log(l) {}
    virtual void dispatch(int code, const std::string& m)
    {
        if(errorCategory(code) < Warning) return;
        log.lines.push_back("E " + std::to_string((int)(errorCategory(code) >> 24)) + " " + hexOf(m.data(), m.size()));
    }
};

static RtBasis b_bezier = {{-1,3,-3,1},{3,-6,3,0},{-3,3,0,0},{1,0,0,0}};
static RtBasis b_bspline = {{-1.0f/6.0f,0.5f,-0.5f,1.0f/6.0f},{0.5f,-1,0.5f,0},{-0.5f,0,0.5f,0},{1.0f/6.0f,2.0f/3.0f,1.0f/6.0f,0}};
static RtBasis b_catrom = {{-0.5f,1.5f,-1.5f,0.5f},{1,-2.5f,2,-0.5f},{-0.5f,0,0.5f,0},{0,1,0,0}};
static RtBasis b_hermite = {{2,1,-2,1},{-3,-2,3,-1},{0,1,0,0},{1,0,0,0}};
static RtBasis b_power = {{1,0,0,0},{0,1,0,0},{0,0,1,0},{0,0,0,1}};

struct Sv : public Ri::RendererServices
{
    LogErr eh; TokenDict dict; Ri::Renderer* base; std::vector<boost::shared_ptr<Ri::Filter> > chain; std::vector<Ri::Renderer*> order;
    boost::shared_ptr<RibParser> parser;
    explicit Sv(Log& l) : eh(l), base(0) {}
    virtual ErrorHandler& errorHandler() { return eh; }
    virtual RtFilterFunc getFilterFunc(RtConstToken n) const { RtFilterFunc f = filterByName(n); if(!f) AQSIS_THROW_XQERROR(XqValidation, EqE_BadToken, "unknown filter \"" << n << "\""); return f; }
    virtual RtConstBasis* getBasis(RtConstToken n) const
    {
        if(!strcmp(n, "bezier")) return &b_bezier; if(!strcmp(n, "b-spline")) return &b_bspline; if(!strcmp(n, "catmull-rom")) return &b_catrom;
        if(!strcmp(n, "hermite")) return &b_hermite; if(!strcmp(n, "power")) return &b_power;
        AQSIS_THROW_XQERROR(XqValidation, EqE_BadToken, "unknown basis \"" << n << "\""); return 0;
    }
    virtual RtErrorFunc getErrorFunc(RtConstToken n) const { RtErrorFunc f = errorByName(n); if(!f) AQSIS_THROW_XQERROR(XqValidation, EqE_BadToken, "unknown error handler"); return f; }
    virtual RtProcSubdivFunc getProcSubdivFunc(RtConstToken n) const { RtProcSubdivFunc f = subdivByName(n); if(!f) AQSIS_THROW_XQERROR(XqValidation, EqE_BadToken, "unknown procedural"); return f; }
    virtual Ri::TypeSpec getDeclaration(RtConstToken t, const char** b = 0, const char** e = 0) const { return dict.lookup(t, b, e); }
    virtual Ri::Renderer& firstFilter() { return order.empty() ? *base : *order.back(); }
    virtual void addFilter(const char* n, const Ri::ParamList& p) { boost::shared_ptr<Ri::Filter> f(createFilter(n, p)); if(!f) fatal("no filter"); add(f); }
    void add(boost::shared_ptr<Ri::Filter> f) { f->setNextFilter(firstFilter()); f->setRendererServices(*this); chain.push_back(f); order.push_back(f.get()); }
    virtual void addFilter(Ri::Filter& f) { f.setNextFilter(firstFilter()); f.setRendererServices(*this); order.push_back(&f); }
    using Ri::RendererServices::parseRib;
    virtual void parseRib(std::istream& s, const char* n, Ri::Renderer& c) { if(!parser) parser.reset(RibParser::create(*this)); parser->parseStream(s, n, c); }
};

struct DeclRec : public Rec
{
    Sv& sv; DeclRec(Log& l, Sv& s) : Rec(l), sv(s) {}
    virtual RtVoid Declare(RtConstString n, RtConstString d) { sv.dict.declare(n, d); Rec::Declare(n, d); }
};

static Log* g_log;
static bool testCond(const char* c) { g_log->lines.push_back("Q " + hexOf(c, strlen(c))); return c[0] == 'T'; }

static void addFilters(Ri::RendererServices& sv, Sv* mine, const std::string& spec, std::vector<boost::shared_ptr<Ri::Filter> >& keep, Log& branchLog, std::unique_ptr<Rec>& branch)
{
    if(spec.empty()) return;
    for(const std::string& f : split(spec, '+'))
    {
        std::vector<std::string> p = split(f, ':');
        if(p[0] == "renderutil")
        {
            boost::shared_ptr<Ri::Filter> u(p.size() > 1 && p[1] == "nocond" ? createRenderUtilFilter() : createRenderUtilFilter(testCond));
            keep.push_back(u); sv.addFilter(*u);
        }
        else if(p[0] == "tee")
        {
            branch.reset(new Rec(branchLog)); boost::shared_ptr<Ri::Filter> t(createTeeFilter(*branch)); keep.push_back(t); sv.addFilter(*t);
        }
        else if(p[0] == "validate")
        {
            if(p.size() > 1 && p[1] == "relaxed") { ParamListBuilder b; b("relaxed_outer_scope", 1); sv.addFilter("validate", b); }
            else sv.addFilter("validate");
        }
        else if(p[0] == "framedrop")
        {
            ParamListBuilder b; b("frames", p[1].c_str()); sv.addFilter("framedrop", b);
        }
        else fatal("filter " + p[0]);
    }
}

struct ChunkBuf : public std::streambuf   // delivers input in small pieces
{
    std::string d; size_t pos, step; std::vector<char> b;
    ChunkBuf(const std::string& s, size_t st) : d(s), pos(0), step(st), b(st+1) {}
    int underflow() { if(pos >= d.size()) return EOF; size_t n = std::min(step, d.size()-pos); size_t k = pos ? 1 : 0; if(k) b[0] = d[pos-1]; memcpy(b.data()+k, d.data()+pos, n); pos += n; setg(b.data(), b.data()+k, b.data()+k+n); return (unsigned char)b[k]; }
};

int main(int argc, char** argv)
{
    std::ios::sync_with_stdio(false);
    std::string line; std::map<std::string, std::string> kv; std::vector<std::string> calls; std::string id, mode, data;
    struct LogCap : public std::streambuf { std::string s; int overflow(int c) { if(c != EOF) s += (char)c; return c; } } cap;
    std::streambuf* oldlog = Aqsis::log().rdbuf(&cap); (void)oldlog;
    while(std::getline(std::cin, line))
    {
        if(line.compare(0, 5, "CASE ") == 0) { id = line.substr(5); kv.clear(); calls.clear(); data.clear(); std::cout << "CASE " << id << "\n" << std::flush; }
        else if(line.compare(0, 5, "PIPE ") == 0)
        {
            std::vector<std::string> t = split(line.substr(5), ' '); mode = t[0];
            for(size_t k = 1; k < t.size(); ++k) { size_t e = t[k].find('='); kv[t[k].substr(0, e)] = t[k].substr(e+1); }
        }
        else if(line.compare(0, 2, "C ") == 0) calls.push_back(line.substr(2));
        else if(line.compare(0, 5, "DATA ") == 0) data = unhex(line.substr(5));
        else if(line == "GO")
        {
            Log log, blog; g_log = &log; cap.s.clear(); g_procLive = 0;
            std::string rib; bool haveRib = false;
            std::vector<boost::shared_ptr<Ri::Filter> > keep; std::unique_ptr<Rec> branch;
            try
            {
                if(mode == "write")
                {
                    RibWriterOptions o; o.useBinary = kv["binary"] == "1"; o.useGzip = kv["gzip"] == "1";
                    if(kv.count("indent")) o.indentStep = atoi(kv["indent"].c_str());
                    if(kv["ichar"] == "tab") o.indentChar = '\t';
                    if(kv.count("interp")) { o.interpolateArchives = true; o.archivePath = kv["interp"]; }
                    if(kv["procs"] == "0") o.handleProcedurals = false;
                    std::ostringstream out;
                    {
                        boost::shared_ptr<RibWriterServices> w(createRibWriter(out, o));
                        addFilters(*w, 0, kv["filters"], keep, blog, branch);
                        for(size_t k = 0; k < calls.size(); ++k)
                        {
                            log.lines.push_back("> " + std::to_string(k));
                            Call c(calls[k]);
                            try { dispatchCxx(w->firstFilter(), *w, c); }
                            catch(std::exception& e) { log.lines.push_back("X " + hexOf(e.what(), strlen(e.what()))); }
                        }
                        if(!data.empty()) { std::istringstream in(data); w->parseRib(in, "stream"); }
                    }
                    rib = out.str(); haveRib = true;
                }
                else
                {
                    Sv sv(log); DeclRec rec(log, sv); sv.base = &rec;
                    addFilters(sv, &sv, kv["filters"], keep, blog, branch);
                    if(mode == "parse")
                    {
                        ChunkBuf cb(data, kv.count("chunk") ? atoi(kv["chunk"].c_str()) : 4096); std::istream in(&cb);
                        sv.parseRib(in, kv.count("name") ? kv["name"].c_str() : "stream");
                    }
                    else if(mode == "calls")
                    {
                        for(size_t k = 0; k < calls.size(); ++k)
                        {
                            log.lines.push_back("> " + std::to_string(k));
                            Call c(calls[k]);
                            try { dispatchCxx(sv.firstFilter(), sv, c); }
                            catch(std::exception& e) { log.lines.push_back("X " + hexOf(e.what(), strlen(e.what()))); }
                        }
                    }
                    else if(mode == "capi")
                    {
                        Handles h; riToRiCxxBegin(sv);
                        for(size_t k = 0; k < calls.size(); ++k)
                        {
                            log.lines.push_back("> " + std::to_string(k));
                            Call c(calls[k]);
                            bool va = kv["varargs"] == "1";
                            if(va && c.name == "MotionBegin" && c.fa(0).size() <= 4)
                            {
                                FloatArray t = c.fa(0);
                                switch(t.size())
                                {
                                    case 0: RiMotionBegin(0); break;
                                    case 1: RiMotionBegin(1, t[0]); break;
                                    case 2: RiMotionBegin(2, t[0], t[1]); break;
                                    case 3: RiMotionBegin(3, t[0], t[1], t[2]); break;
                                    default: RiMotionBegin(4, t[0], t[1], t[2], t[3]); break;
                                }
                                continue;
                            }
                            dispatchC(c, h, va);
                        }
                        riToRiCxxEnd();
                    }
                    else fatal("mode " + mode);
                }
            }
            catch(std::exception& e) { log.lines.push_back("X " + hexOf(e.what(), strlen(e.what()))); }
            for(auto& l : log.lines) std::cout << l << "\n";
            for(auto& l : blog.lines) std::cout << "B" << l << "\n";
            if(haveRib) std::cout << "R " << hexOf(rib.data(), rib.size()) << "\n";
            if(!cap.s.empty()) std::cout << "G " << hexOf(cap.s.data(), cap.s.size()) << "\n";
            std::cout << "N " << g_procLive << "\n";
            std::cout << "END\n" << std::flush;
        }
    }
    return 0;
}
