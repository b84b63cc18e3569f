// Recording display: writes every call it receives to <name> as an event log.
// Display parameters "string rec" choose its behaviour: tokens separated by
// blanks: scan (ask for scanline order), rev (reverse the channel order),
// types=<n> (force every channel to that PkDspy type), fail=<n> (refuse to
// open), nodelay is a different symbol set and not needed.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <aqsis/ri/ndspy.h>

struct Img { FILE* f; int w, h, es; std::vector<std::string> names; bool scan; long calls; };

extern "C" {
PtDspyError DspyImageOpen(PtDspyImageHandle* image, const char* driver, const char* file, int w, int h,
	int n, const UserParameter* p, int nf, PtDspyDevFormat* fmt, PtFlagStuff* flags)
{
	std::string rec;
	for (int i = 0; i < n; ++i)
		if (p[i].name && !strcmp(p[i].name, "rec") && p[i].vtype == 's')
			rec = ((char**)p[i].value)[0];
	FILE* f = fopen(file, "ab");
	if (!f) return PkDspyErrorNoResource;
	Img* im = new Img;
	im->f = f; im->w = w; im->h = h; im->calls = 0;
	im->scan = rec.find("scan") != std::string::npos;
	fprintf(f, "open %s %d %d\n", driver, w, h);
	for (int i = 0; i < nf; ++i)
		fprintf(f, "offer %s %u\n", fmt[i].name, fmt[i].type);
	for (int i = 0; i < n; ++i)
	{
		if (!p[i].name) { fprintf(f, "param <null>\n"); continue; }
		fprintf(f, "param %s %c %d", p[i].name, p[i].vtype ? p[i].vtype : '0', int((unsigned char)p[i].vcount));
		for (int j = 0; j < (unsigned char)p[i].vcount; ++j)
		{
			if (p[i].vtype == 'f') fprintf(f, " %.9g", ((float*)p[i].value)[j]);
			else if (p[i].vtype == 'i') fprintf(f, " %d", ((int*)p[i].value)[j]);
			else if (p[i].vtype == 's') {
				const char* s = ((char**)p[i].value)[j];
				fprintf(f, " ");
				for (; *s; ++s) fprintf(f, "%02x", (unsigned char)*s);
				fprintf(f, ".");
			}
		}
		fprintf(f, "\n");
	}
	size_t k;
	if ((k = rec.find("types=")) != std::string::npos)
		for (int i = 0; i < nf; ++i) fmt[i].type = atoi(rec.c_str() + k + 6);
	if (rec.find("rev") != std::string::npos)
		std::reverse(fmt, fmt + nf);
	if (im->scan) flags->flags |= PkDspyFlagsWantsScanLineOrder;
	if (rec.find("fail") != std::string::npos) {
		fprintf(f, "refused\n"); fclose(f); delete im; *image = 0; return PkDspyErrorNoResource;
	}
	im->es = 0;
	for (int i = 0; i < nf; ++i)
		fprintf(f, "format %s %u\n", fmt[i].name, fmt[i].type & PkDspyMaskType);
	fflush(f);
	*image = im;
	return PkDspyErrorNone;
}
PtDspyError DspyImageQuery(PtDspyImageHandle h, PtDspyQueryType t, size_t size, void* data)
{
	Img* im = (Img*)h;
	if (!im) return PkDspyErrorBadParams;
	if (t == PkSizeQuery) { PtDspySizeInfo* s = (PtDspySizeInfo*)data; s->width = im->w; s->height = im->h; s->aspectRatio = 1; }
	return PkDspyErrorNone;
}
PtDspyError DspyImageData(PtDspyImageHandle h, int x0, int x1, int y0, int y1, int es, const unsigned char* d)
{
	Img* im = (Img*)h;
	if (!im) return PkDspyErrorBadParams;
	fprintf(im->f, "data %d %d %d %d %d\n", x0, x1, y0, y1, es);
	if (x1 > x0 && y1 > y0 && d)
		fwrite(d, es, size_t(x1 - x0) * (y1 - y0), im->f);   // reads every byte promised
	++im->calls;
	return PkDspyErrorNone;
}
PtDspyError DspyImageClose(PtDspyImageHandle h)
{
	Img* im = (Img*)h;
	if (!im) return PkDspyErrorNone;
	fprintf(im->f, "close\n");
	fclose(im->f);
	delete im;
	return PkDspyErrorNone;
}
PtDspyError DspyImageDelayClose(PtDspyImageHandle h)
{
	Img* im = (Img*)h;
	if (!im) return PkDspyErrorNone;
	fprintf(im->f, "delayclose\n");
	fclose(im->f);
	delete im;
	return PkDspyErrorNone;
}
}
