// Drives libri2rib through the C interface, with interleaved contexts.
//   O/I name value   options before RiBegin      B k file   RiBegin
//   X k  switch to context k    C call    E k  end context k
#include <iostream>
#include <sstream>
#include <aqsis/ri/ri.h>
#include <aqsis/util/exception.h>
#include "ri_call.h"
#define WITH_C_API
using namespace Aqsis;
typedef Ri::IntArray IntArray; typedef Ri::FloatArray FloatArray; typedef Ri::StringArray StringArray;
typedef Ri::TokenArray TokenArray; typedef Ri::ParamList ParamList;
long g_procLive = 0;
void freeCounted(RtPointer p) { --g_procLive; free(p); }
struct FN { const char* n; RtFilterFunc f; };
static FN filters[] = { {"box", RiBoxFilter}, {"gaussian", RiGaussianFilter}, {"triangle", RiTriangleFilter}, {"mitchell", RiMitchellFilter},
    {"catmull-rom", RiCatmullRomFilter}, {"sinc", RiSincFilter}, {"bessel", RiBesselFilter}, {"disk", RiDiskFilter} };
const char* filterName(RtFilterFunc f) { for(FN& x : filters) if(x.f == f) return x.n; return 0; }
RtFilterFunc filterByName(const char* n) { for(FN& x : filters) if(!strcmp(x.n, n)) return x.f; return 0; }
const char* errorName(RtErrorFunc f) { return f == RiErrorIgnore ? "ignore" : f == RiErrorPrint ? "print" : f == RiErrorAbort ? "abort" : 0; }
RtErrorFunc errorByName(const char* n) { return !strcmp(n, "ignore") ? RiErrorIgnore : !strcmp(n, "print") ? RiErrorPrint : !strcmp(n, "abort") ? RiErrorAbort : 0; }
const char* subdivName(RtProcSubdivFunc f) { return f == RiProcDelayedReadArchive ? "DelayedReadArchive" : f == RiProcRunProgram ? "RunProgram" : f == RiProcDynamicLoad ? "DynamicLoad" : 0; }
RtProcSubdivFunc subdivByName(const char* n) { return !strcmp(n, "DelayedReadArchive") ? RiProcDelayedReadArchive : !strcmp(n, "RunProgram") ? RiProcRunProgram : !strcmp(n, "DynamicLoad") ? RiProcDynamicLoad : 0; }
#include "ri_gen.h"

int main(int argc, char** argv)
{
    bool va = argc > 1 && argv[1][0] == '1';
    std::map<int, RtContextHandle> ctx; std::map<int, Handles> hs; int cur = 0;
    std::string line;
    while(std::getline(std::cin, line))
    {
        char k = line[0]; std::string rest = line.substr(2);
        if(k == 'O' || k == 'I')
        {
            size_t e = rest.find(' '); std::string n = rest.substr(0, e), v = rest.substr(e + 1); char* s = const_cast<char*>(v.c_str()); int sz = atoi(s);
            RtToken t = const_cast<char*>(n.c_str());
            if(n == "Size") RiOption(const_cast<char*>("RI2RIB_Indentation"), t, &sz, RI_NULL);
            else RiOption(const_cast<char*>(k == 'O' ? "RI2RIB_Output" : "RI2RIB_Indentation"), t, &s, RI_NULL);
        }
        else if(k == 'B') { size_t e = rest.find(' '); cur = atoi(rest.c_str()); RiBegin(const_cast<char*>(rest.c_str() + e + 1)); ctx[cur] = RiGetContext(); }
        else if(k == 'X') { cur = atoi(rest.c_str()); RiContext(ctx[cur]); }
        else if(k == 'E') { cur = atoi(rest.c_str()); RiContext(ctx[cur]); RiEnd(); }
        else if(k == 'C') { Call c(rest); dispatchC(c, hs[cur], va); }
    }
    return 0;
}
