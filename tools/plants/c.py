import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from plant import plant, render_demo, lib_demo
DSPY = r'''
#include <dlfcn.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <vector>
#include <string>
#define DSPY_INTERNAL
#include <aqsis/aqsis.h>
#include <aqsis/ri/ritypes.h>
#include <aqsis/ri/ndspy.h>
#include <tiffio.h>
struct Drv { DspyImageOpenMethod open; DspyImageDataMethod data; DspyImageCloseMethod close; };
static Drv load(const char* path)
{
    void* h = dlopen(path, RTLD_NOW);
    if(!h) { puts(dlerror()); exit(2); }
    Drv d = {(DspyImageOpenMethod)dlsym(h, "DspyImageOpen"), (DspyImageDataMethod)dlsym(h, "DspyImageData"), (DspyImageCloseMethod)dlsym(h, "DspyImageClose")};
    return d;
}
'''
d = plant('c17-crop-bucket', 'C17', 'a cropped image whose top left corner falls inside a bucket, away from both of its edges', 'the pixels of the corner bucket of a cropped image come from the wrong rows',
          [('tools/displays/file/display.cpp', '	pdatarow += (row * bucketlinelen) + (col * entrysize);', '	pdatarow += (row * copylinelen) + (col * entrysize);')])
lib_demo(d, DSPY + r'''
int main()
{
    Drv v = load("/repo/_build/main/tools/displays/file/file_dspy.so");
    int bad = 0;
    for(int crop = 0; crop < 2; ++crop)
    {
        int ox = crop ? 5 : 0, oy = crop ? 6 : 0, fw = 40, fh = 40, w = fw - ox, h = fh - oy;
        int origin[2] = {ox, oy}, orig[2] = {fw, fh};
        UserParameter p[2] = {{(char*)"origin", 'i', 2, origin, 8}, {(char*)"OriginalSize", 'i', 2, orig, 8}};
        PtDspyDevFormat f[3] = {{(char*)"r", PkDspyUnsigned8}, {(char*)"g", PkDspyUnsigned8}, {(char*)"b", PkDspyUnsigned8}};
        PtFlagStuff fl = {0};
        PtDspyImageHandle im = 0;
        if(v.open(&im, "file", "x.tif", w, h, 2, p, 3, f, &fl)) return 2;
        for(int y = 0; y < fh; y += 16)
            for(int x = 0; x < fw; x += 16)
            {
                int x1 = x + 16 < fw ? x + 16 : fw, y1 = y + 16 < fh ? y + 16 : fh;
                std::vector<unsigned char> b;
                for(int j = y; j < y1; ++j) for(int i = x; i < x1; ++i) { b.push_back(i); b.push_back(j); b.push_back(i ^ j); }
                v.data(im, x, x1, y, y1, 3, &b[0]);
            }
        v.close(im);
        TIFF* t = TIFFOpen("x.tif", "r");
        if(!t) return 1;
        std::vector<unsigned char> l(TIFFScanlineSize(t));
        for(int y = 0; y < h; ++y)
        {
            TIFFReadScanline(t, &l[0], y);
            for(int x = 0; x < w; ++x)
                if(l[3*x] != x + ox || l[3*x+1] != y + oy) { if(!bad++) printf("pixel %d,%d holds %d,%d\n", x, y, l[3*x], l[3*x+1]); }
        }
        TIFFClose(t);
    }
    return bad ? 1 : 0;
}
''', '', '-ldl -ltiff')
d = plant('c17-exr-layers', 'C17', 'an exr file of several layers, one of which is a few lines ahead of the others', 'starting a new line forgets how much of the others has arrived, so that they are never written',
          [('tools/displays/exr/d_exr.cpp', '		_scanlinesReceived[yMin] = 0;\n', '		_scanlinesReceived.clear();\n')])
lib_demo(d, DSPY + r'''
#include <ImfInputFile.h>
#include <ImfFrameBuffer.h>
#include <ImfChannelList.h>
#include <ImfHeader.h>
int main()
{
    Drv v = load("/repo/_build/main/tools/displays/exr/exr_dspy.so");
    const int W = 8, H = 6;
    int origin[2] = {0, 0}, orig[2] = {W, H};
    UserParameter p[2] = {{(char*)"origin", 'i', 2, origin, 8}, {(char*)"OriginalSize", 'i', 2, orig, 8}};
    PtDspyImageHandle im[2];
    for(int k = 0; k < 2; ++k)
    {
        PtDspyDevFormat f[1] = {{(char*)"r", PkDspyFloat32}};
        PtFlagStuff fl = {0};
        if(v.open(&im[k], "exr", "x.exr", W, H, 2, p, 1, f, &fl)) return 2;
    }
    // the first layer is a bucket of three lines ahead
    for(int y0 = 0; y0 < H; y0 += 3)
        for(int k = 0; k < 2; ++k)
            for(int y = y0; y < y0 + 3; ++y)
            {
                float l[W];
                for(int x = 0; x < W; ++x) l[x] = 1 + k*100 + y*10 + x;
                v.data(im[k], 0, W, y, y + 1, 4, (unsigned char*)l);
            }
    v.close(im[0]); v.close(im[1]);
    int bad = 0;
    Imf::InputFile in("x.exr");
    for(int k = 0; k < 2; ++k)
    {
        float px[W*H];
        memset(px, 0, sizeof(px));
        Imf::FrameBuffer fb;
        std::string n = k ? "layer_1.R" : "layer_0.R";
        if(!in.header().channels().findChannel(n)) return 1;
        fb.insert(n, Imf::Slice(Imf::FLOAT, (char*)px, 4, 4*W));
        in.setFrameBuffer(fb);
        try { in.readPixels(0, H - 1); } catch(std::exception& e) { puts(e.what()); return 1; }
        for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x)
            if(px[y*W + x] != 1 + k*100 + y*10 + x && !bad++) printf("layer %d pixel %d,%d is %g\n", k, x, y, px[y*W + x]);
    }
    return bad ? 1 : 0;
}
''', '', '-ldl -lOpenEXR -lImath -lIex')
