// A display that writes the delivered pixels as text: "x y v v v v" per pixel.
#include <aqsis/ri/ndspy.h>
#include <stdio.h>
#include <string.h>
struct I { FILE* f; int nf; PtDspyDevFormat fmt[64]; };
extern "C" PtDspyError DspyImageOpen(PtDspyImageHandle* h, const char*, const char* fn, int w, int ht, int, const UserParameter*, int nf, PtDspyDevFormat* fmt, PtFlagStuff* fl)
{
	I* i = new I; i->f = fopen(fn, "w"); i->nf = nf; memcpy(i->fmt, fmt, nf*sizeof(*fmt));
	for(int k = 0; k < nf; ++k) fmt[k].type = PkDspyFloat32;
	fprintf(i->f, "open %d %d\n", w, ht);
	*h = (PtDspyImageHandle)i; fl->flags = 0;
	return PkDspyErrorNone;
}
extern "C" PtDspyError DspyImageData(PtDspyImageHandle h, int x0, int x1, int y0, int y1, int es, const unsigned char* d)
{
	I* i = (I*)h;
	for(int y = y0; y < y1; ++y) for(int x = x0; x < x1; ++x, d += es) {
		fprintf(i->f, "%d %d", x, y);
		for(int k = 0; k < es/4; ++k) { float v; memcpy(&v, d+4*k, 4); fprintf(i->f, " %.6g", v); }
		fprintf(i->f, "\n");
	}
	return PkDspyErrorNone;
}
extern "C" PtDspyError DspyImageClose(PtDspyImageHandle h) { fclose(((I*)h)->f); return PkDspyErrorNone; }
extern "C" PtDspyError DspyImageQuery(PtDspyImageHandle, PtDspyQueryType, size_t, void*) { return PkDspyErrorUnsupported; }
extern "C" PtDspyError DspyImageDelayClose(PtDspyImageHandle h) { return DspyImageClose(h); }
