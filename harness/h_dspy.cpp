// Drives the display drivers through their C interface and reads the files
// they write with the image libraries themselves.
#include <dlfcn.h>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <string>
#include <vector>
#define DSPY_INTERNAL
#include <aqsis/aqsis.h>
#include <aqsis/ri/ritypes.h>
#include <aqsis/ri/ndspy.h>
#include <aqsis/version.h>
#include <tiffio.h>
#define ZFILE_HEADER "Aqsis ZFile" AQSIS_VERSION_STR
#include <OpenEXR/ImfInputFile.h>
#include <OpenEXR/ImfChannelList.h>
#include <OpenEXR/ImfFrameBuffer.h>
#include <OpenEXR/ImfMatrixAttribute.h>
#include <OpenEXR/ImfFloatAttribute.h>
#include <OpenEXR/ImfStringAttribute.h>
#include <OpenEXR/ImfLut.h>
#include <Imath/half.h>

struct Rng
{
	std::mt19937_64 g;
	Rng(unsigned long s) : g(s) {}
	int i(int lo, int hi) { return lo + int(g() % (unsigned long)(hi - lo + 1)); }
	double d() { return (g() >> 11) * (1.0/9007199254740992.0); }
	bool p(double x) { return d() < x; }
};

static std::map<std::string, long> g_counts;
static void fail(const std::string& key, const std::string& msg)
{
	std::cout << "FAIL " << key << " " << msg << std::endl;
}
static std::string S(double v) { char b[64]; snprintf(b, 64, "%.9g", v); return b; }

struct Driver
{
	DspyImageOpenMethod open;
	DspyImageQueryMethod query;
	DspyImageDataMethod data;
	DspyImageCloseMethod close;
	DspyImageDelayCloseMethod delay;
};
static Driver& driver(const std::string& lib)
{
	static std::map<std::string, Driver> all;
	if(!all.count(lib))
	{
		std::string path = std::string(DSPY_DIR) + "/" + (lib == "bmp" ? "sdcBMP" : lib) + "/" + lib + "_dspy.so";
		void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
		if(!h) { std::cerr << "cannot load " << path << ": " << dlerror() << "\n"; exit(3); }
		Driver d;
		d.open = (DspyImageOpenMethod)dlsym(h, "DspyImageOpen");
		d.query = (DspyImageQueryMethod)dlsym(h, "DspyImageQuery");
		d.data = (DspyImageDataMethod)dlsym(h, "DspyImageData");
		d.close = (DspyImageCloseMethod)dlsym(h, "DspyImageClose");
		d.delay = (DspyImageDelayCloseMethod)dlsym(h, "DspyImageDelayClose");
		all[lib] = d;
	}
	return all[lib];
}

struct Frame { int fw, fh, ox, oy, w, h; };

// One open display: what it was told, and what its file must hold.
struct Display
{
	std::string kind, lib, file;
	Frame f;
	std::vector<std::string> names;      // channels offered
	std::vector<PtDspyDevFormat> format; // as it stands after the driver opened
	unsigned type;
	float NP[16], Nl[16];
	bool matrices;
	std::string description, host, compression, layer, pixelType;
	std::vector<std::string> channelNames;
	std::vector<std::pair<std::string, std::string> > metadata;
	int quality; bool append; bool scanOrder;
	PtDspyImageHandle handle;
	std::map<std::string, std::vector<double> > val; // whole frame, by channel name
	int entry;
	std::vector<int> calls[2];

	// parameter storage
	std::vector<UserParameter> params;
	std::vector<std::shared_ptr<void> > keep;
	void ps(const char* n, const std::string& v)
	{
		std::shared_ptr<std::string> s(new std::string(v));
		std::shared_ptr<const char*> p(new const char*(s->c_str()));
		keep.push_back(s); keep.push_back(p);
		UserParameter u = {const_cast<char*>(n), 's', 1, p.get(), sizeof(char*)};
		params.push_back(u);
	}
	void pss(const char* n, const std::vector<std::string>& v)
	{
		std::shared_ptr<std::vector<std::string> > s(new std::vector<std::string>(v));
		std::shared_ptr<std::vector<const char*> > p(new std::vector<const char*>);
		for(size_t i = 0; i < s->size(); ++i) p->push_back((*s)[i].c_str());
		keep.push_back(s); keep.push_back(p);
		UserParameter u = {const_cast<char*>(n), 's', (char)v.size(), (void*)p->data(), int(sizeof(char*)*v.size())};
		params.push_back(u);
	}
	template<typename T> void pn(const char* n, char t, const std::vector<T>& v)
	{
		std::shared_ptr<std::vector<T> > s(new std::vector<T>(v));
		keep.push_back(s);
		UserParameter u = {const_cast<char*>(n), t, (char)v.size(), (void*)s->data(), int(sizeof(T)*v.size())};
		params.push_back(u);
	}
	double at(const std::string& n, int x, int y) { return val[n][y*f.fw + x]; }
};

static double randomValue(Rng& r, unsigned type)
{
	switch(type)
	{
		case PkDspyFloat32:
		{
			int k = r.i(0, 5);
			if(k == 0) return 0;
			if(k == 1) return r.p(.1) ? (r.p(.5) ? HUGE_VAL : 3.402823466e38f) : float(r.i(-3, 3));
			if(k == 2) return float(std::ldexp(r.d() - .5, r.i(-40, 40)));
			return float(r.d());
		}
		case PkDspyUnsigned32: return double((unsigned)r.g());
		case PkDspySigned32: return double((unsigned)r.g() >> 1);
		case PkDspyUnsigned16: return r.i(0, 65535);
		case PkDspySigned16: return r.i(0, 32767);
		case PkDspyUnsigned8: return r.i(0, 255);
		default: return r.i(0, 127);
	}
}
static int typeSize(unsigned t)
{
	switch(t & PkDspyMaskType)
	{
		case PkDspyFloat32: case PkDspyUnsigned32: case PkDspySigned32: return 4;
		case PkDspyUnsigned16: case PkDspySigned16: return 2;
		default: return 1;
	}
}
static void put(unsigned char* p, unsigned t, double v)
{
	switch(t & PkDspyMaskType)
	{
		case PkDspyFloat32: { float x = v; memcpy(p, &x, 4); break; }
		case PkDspyUnsigned32: case PkDspySigned32: { unsigned x = (unsigned)v; memcpy(p, &x, 4); break; }
		case PkDspyUnsigned16: case PkDspySigned16: { unsigned short x = (unsigned short)v; memcpy(p, &x, 2); break; }
		default: *p = (unsigned char)v;
	}
}

static void matrices(Rng& r, Display& d)
{
	float T[16] = {0}, P[16] = {0};
	for(int i = 0; i < 4; ++i) T[5*i] = i < 3 ? float(.5 + r.d()) : 1;
	for(int i = 12; i < 15; ++i) T[i] = float(r.d()*4 - 2);
	T[1] = float(r.d()*.3);
	P[0] = float(.5 + r.d()); P[5] = float(.5 + r.d()); P[10] = 1; P[11] = 1; P[14] = float(-r.d()); P[15] = 0;
	for(int i = 0; i < 4; ++i)
		for(int j = 0; j < 4; ++j)
		{
			float s = 0;
			for(int k = 0; k < 4; ++k) s += T[4*i + k]*P[4*k + j];
			d.NP[4*i + j] = s;
			d.Nl[4*i + j] = T[4*i + j];
		}
}

static std::string text(Rng& r, int n)
{
	std::string s;
	for(int i = 0; i < n; ++i) s += char(r.i(33, 126));
	return s;
}

static bool open(Rng& r, Display& d)
{
	std::vector<std::string>& names = d.names;
	const char* extra[] = {"z", "Ng.x", "P.y", "mask"};
	bool sized = d.f.w != d.f.fw || d.f.h != d.f.fh || r.p(.6);
	if(sized)
	{
		d.pn("origin", 'i', std::vector<int>{d.f.ox, d.f.oy});
		d.pn("OriginalSize", 'i', std::vector<int>{d.f.fw, d.f.fh});
	}
	d.matrices = d.kind != "bmp" && r.p(.8);
	if(d.matrices)
	{
		matrices(r, d);
		d.pn("NP", 'f', std::vector<float>(d.NP, d.NP + 16));
		d.pn("Nl", 'f', std::vector<float>(d.Nl, d.Nl + 16));
	}
	d.append = false; d.scanOrder = false; d.quality = 0;
	d.type = PkDspyFloat32;
	if(d.kind == "file" || d.kind == "tiff")
	{
		unsigned types[] = {PkDspyUnsigned8, PkDspyUnsigned8, PkDspyUnsigned16, PkDspyFloat32, PkDspyUnsigned32, PkDspySigned8, PkDspySigned16, PkDspySigned32};
		d.type = types[r.i(0, 7)];
		const char* all[] = {"r", "g", "b", "a"};
		int n = r.p(.15) ? r.i(1, 2) : r.i(3, 4);
		for(int i = 0; i < n; ++i) names.push_back(all[i]);
		if(n == 4 && r.p(.25))
			for(int i = 0, e = r.i(1, 3); i < e; ++i) names.push_back(extra[i]);
		if(r.p(.6))
			std::shuffle(names.begin(), names.end(), r.g);
		else if(n == 4)
		{
			// alpha first, as the renderer offers it
			names.erase(std::find(names.begin(), names.end(), "a"));
			names.insert(names.begin(), "a");
		}
		if(r.p(.2)) { d.pn("scanlineorder", 'i', std::vector<int>{1}); d.scanOrder = true; }
	}
	else if(d.kind == "zfile")
		names.push_back("z");
	else if(d.kind == "shadow")
	{
		names.push_back("z");
		if(r.p(.2)) names.push_back("n");
		d.append = r.p(.3);
		if(d.append) d.pn("append", 'f', std::vector<float>{1});
	}
	else if(d.kind == "bmp")
	{
		d.type = PkDspyUnsigned8;
		if(r.p(.15)) names.push_back("r");
		else
		{
			if(r.p(.4)) names.push_back("a");
			names.push_back("r"); names.push_back("g"); names.push_back("b");
		}
	}
	else
	{
		unsigned types[] = {PkDspyUnsigned8, PkDspyUnsigned16, PkDspyFloat32};
		d.type = types[r.i(0, 2)];
		const char* all[] = {"r", "g", "b", "a", "z", "Ng.x", "Ng.y", "mask"};
		for(int i = 0; i < 8; ++i) if(r.p(i < 3 ? .8 : .3)) names.push_back(all[i]);
		if(names.empty()) names.push_back("r");
		if(r.p(.5)) std::shuffle(names.begin(), names.end(), r.g);
		const char* comp[] = {"", "none", "rle", "zips", "zip", "piz", "piz12"};
		if(d.compression.empty()) d.compression = comp[r.i(0, 6)];
		if(!d.compression.empty()) d.ps("exrcompression", d.compression);
		d.pixelType = "half";
		if(r.p(.7)) { d.pixelType = r.p(.5) ? "half" : "float"; d.ps("exrpixeltype", d.pixelType); }
		if(!d.layer.empty()) d.ps("layername", d.layer);
		if(r.p(.25))
		{
			for(size_t i = 0; i < names.size(); ++i) d.channelNames.push_back("ch" + std::to_string(i) + (i % 2 ? "x" : ""));
			d.pss("channelnames", d.channelNames);
		}
	}
	if(d.lib == "file")
	{
		if(r.p(.6))
		{
			const char* comp[] = {"none", "lzw", "deflate", "packbits"};
			d.compression = comp[r.i(0, 3)];
			d.ps("compression", d.compression);
		}
		if(r.p(.5)) { d.host = text(r, r.i(1, 40)); d.ps("HostComputer", d.host); }
		if(r.p(.4)) { d.description = text(r, r.p(.3) ? r.i(70, 300) : r.i(1, 70)); d.ps("description", d.description); }
		if(r.p(.2)) d.pn("quality", 'i', std::vector<int>{r.i(1, 100)});
	}
	std::shuffle(d.params.begin(), d.params.end(), r.g);
	for(size_t i = 0; i < names.size(); ++i)
	{
		std::vector<double>& v = d.val[names[i]];
		v.resize(d.f.fw*d.f.fh);
		bool flat = r.p(.2);
		double c = randomValue(r, d.type);
		for(size_t k = 0; k < v.size(); ++k) v[k] = flat ? c : randomValue(r, d.type);
		PtDspyDevFormat f = {const_cast<char*>(names[i].c_str()), d.type};
		d.format.push_back(f);
	}
	PtFlagStuff flags = {0};
	d.handle = 0;
	PtDspyError e = driver(d.lib).open(&d.handle, d.kind.c_str(), d.file.c_str(), d.f.w, d.f.h, d.params.size(), d.params.data(), d.format.size(), d.format.data(), &flags);
	if(e != PkDspyErrorNone)
	{
		fail("open", d.kind + ": opening failed with error " + std::to_string(e));
		return false;
	}
	d.scanOrder = flags.flags & PkDspyFlagsWantsScanLineOrder;
	std::vector<std::string> now;
	d.entry = 0;
	for(size_t i = 0; i < d.format.size(); ++i)
	{
		now.push_back(d.format[i].name);
		d.entry += typeSize(d.format[i].type);
	}
	std::vector<std::string> was = names;
	std::sort(was.begin(), was.end()); std::sort(now.begin(), now.end());
	if(was != now) { fail("channels", d.kind + ": the channels were changed by opening"); return false; }
	PtDspySizeInfo si;
	if(driver(d.lib).query(d.handle, PkSizeQuery, sizeof(si), &si) == PkDspyErrorNone)
	{
		++g_counts["size_queries"];
		if((int)si.width != d.f.w || (int)si.height != d.f.h)
			fail("size-query", d.kind + ": reports " + std::to_string(si.width) + "x" + std::to_string(si.height) + " for " + std::to_string(d.f.w) + "x" + std::to_string(d.f.h));
	}
	else fail("size-query", d.kind + ": the size can't be asked for");
	return true;
}

// A driver asking for float when the values offered were quantised gets the
// same numbers as floats.
static bool send(Display& d, int x0, int x1, int y0, int y1)
{
	// exactly the bytes of the rectangle, so that reading beyond is noticed
	std::unique_ptr<unsigned char[]> buf(new unsigned char[(x1 - x0)*(y1 - y0)*d.entry]);
	unsigned char* p = buf.get();
	for(int y = y0; y < y1; ++y)
		for(int x = x0; x < x1; ++x)
			for(size_t k = 0; k < d.format.size(); ++k)
			{
				put(p, d.format[k].type, d.at(d.format[k].name, x, y));
				p += typeSize(d.format[k].type);
			}
	++g_counts["data_calls"];
	PtDspyError e = driver(d.lib).data(d.handle, x0, x1, y0, y1, d.entry, buf.get());
	if(e != PkDspyErrorNone)
	{
		fail("data", d.kind + ": sending data failed with error " + std::to_string(e));
		return false;
	}
	return true;
}

struct Piece { int x0, x1, y0, y1; };
static std::vector<Piece> pieces(Rng& r, const Display& d)
{
	std::vector<Piece> out;
	const Frame& f = d.f;
	if(d.scanOrder)
	{
		for(int y = f.oy; y < f.oy + f.h; ++y) out.push_back(Piece{f.ox, f.ox + f.w, y, y + 1});
		return out;
	}
	int bw = r.p(.3) ? r.i(1, 40) : 16, bh = r.p(.3) ? r.i(1, 40) : 16;
	for(int y = 0; y < f.fh; y += bh)
		for(int x = 0; x < f.fw; x += bw)
		{
			Piece p = {x, std::min(x + bw, f.fw), y, std::min(y + bh, f.fh)};
			if(p.x1 <= f.ox || p.y1 <= f.oy || p.x0 > f.ox + f.w || p.y0 > f.oy + f.h) continue;
			out.push_back(p);
		}
	if(r.p(.7)) std::shuffle(out.begin(), out.end(), r.g);
	return out;
}

#include "h_dspy_check.h"

static void one(Rng& r, const std::string& mode, const std::string& dir, int n)
{
	std::vector<std::shared_ptr<Display> > ds;
	Frame f;
	f.w = r.p(.1) ? r.i(1, 3) : r.i(1, 70);
	f.h = r.p(.1) ? r.i(1, 3) : r.i(1, 70);
	f.ox = f.oy = 0; f.fw = f.w; f.fh = f.h;
	if(r.p(.5))
	{
		f.ox = r.i(0, 40); f.oy = r.i(0, 40);
		f.fw = f.ox + f.w + r.i(0, 20); f.fh = f.oy + f.h + r.i(0, 20);
		++g_counts["cropped"];
	}
	int count = mode == "exr" ? r.i(1, 3) : r.p(.3) ? 2 : 1;
	bool together = mode == "exr" && r.p(.6);
	std::string comp;
	for(int i = 0; i < count; ++i)
	{
		std::shared_ptr<Display> d(new Display);
		d->kind = mode;
		if(mode == "file" && r.p(.3)) d->kind = "tiff";
		d->lib = mode == "exr" || mode == "bmp" ? mode : "file";
		d->file = dir + "/i" + std::to_string(n) + "_" + std::to_string(together ? 0 : i) + "." + mode;
		d->f = f;
		if(mode == "exr")
		{
			if(together)
			{
				if(i) d->compression = comp;
				if(r.p(.6)) d->layer = "L" + std::to_string(i) + text(r, 0);
			}
			else if(r.p(.3)) d->layer = "solo";
		}
		if(!open(r, *d)) return;
		comp = d->compression;
		ds.push_back(d);
		++g_counts["displays_" + d->kind];
	}
	if(count > 1) ++g_counts["several_open"];
	// the data, with the displays taking turns at random
	std::vector<std::vector<Piece> > todo;
	std::vector<size_t> next(count, 0);
	size_t left = 0;
	for(int i = 0; i < count; ++i) { todo.push_back(pieces(r, *ds[i])); left += todo[i].size(); }
	while(left)
	{
		int i = r.i(0, count - 1);
		if(next[i] == todo[i].size()) continue;
		int burst = r.i(1, 5);
		while(burst-- && next[i] < todo[i].size())
		{
			Piece p = todo[i][next[i]++];
			--left;
			if(!send(*ds[i], p.x0, p.x1, p.y0, p.y1)) return;
		}
	}
	std::vector<int> order;
	for(int i = 0; i < count; ++i) order.push_back(i);
	std::shuffle(order.begin(), order.end(), r.g);
	for(int i = 0; i < count; ++i)
	{
		Display& d = *ds[order[i]];
		PtDspyError e = (driver(d.lib).delay && r.p(.3) ? driver(d.lib).delay : driver(d.lib).close)(d.handle);
		if(e != PkDspyErrorNone) fail("close", d.kind + ": closing failed with error " + std::to_string(e));
	}
	for(int i = 0; i < count; ++i) check(*ds[i], 0, 1, together ? i : 0);
	// A shadow map opened for appending adds to the file.
	if(mode == "shadow" && count == 1)
	{
		std::shared_ptr<Display> a(new Display);
		a->kind = a->lib = mode; a->lib = "file"; a->file = ds[0]->file; a->f = f;
		if(!open(r, *a)) return;
		std::vector<Piece> ps = pieces(r, *a);
		for(size_t k = 0; k < ps.size(); ++k)
			if(!send(*a, ps[k].x0, ps[k].x1, ps[k].y0, ps[k].y1)) return;
		driver("file").close(a->handle);
		if(a->append) { check(*ds[0], 0, 2); check(*a, 1, 2); ++g_counts["appended"]; }
		else check(*a, 0, 1);
	}
	for(int i = 0; i < count; ++i) std::remove(ds[i]->file.c_str());
}

int main(int argc, char** argv)
{
	std::string mode = argv[1], dir = argv[2];
	unsigned long seed = std::strtoul(argv[3], 0, 10);
	int n = std::atoi(argv[4]), only = argc > 5 ? std::atoi(argv[5]) : -1;
	TIFFSetWarningHandler(0);
	for(int i = 0; i < n; ++i)
	{
		if(only >= 0 && i != only) continue;
		Rng r(seed*1000003UL + i);
		std::cout << "CASE " << i << std::endl;
		try { one(r, mode, dir, i); }
		catch(std::exception& e) { fail("exception", e.what()); }
	}
	for(std::map<std::string, long>::iterator i = g_counts.begin(); i != g_counts.end(); ++i)
		std::cout << "COUNT " << i->first << " " << i->second << "\n";
	std::cout << "DONE" << std::endl;
}
