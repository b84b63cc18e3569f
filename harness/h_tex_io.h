// round trips through the image file classes
#include <cstdio>
#include <cstring>
#include <map>
#include <random>
#include <sstream>
#include <fstream>
#include <iostream>
#include <boost/filesystem.hpp>
#include <aqsis/tex/io/itexinputfile.h>
#include <aqsis/tex/io/itexoutputfile.h>
#include <aqsis/tex/io/itiledtexinputfile.h>
#include <aqsis/tex/io/texfileattributes.h>
#include <aqsis/tex/io/texfileheader.h>
#include <aqsis/tex/buffers/mixedimagebuffer.h>
#include <aqsis/tex/buffers/texturebuffer.h>
#include <aqsis/tex/texexception.h>

using namespace Aqsis;

struct Rng
{
	std::mt19937_64 g;
	Rng(unsigned long s) : g(s) {}
	int i(int lo, int hi) { return lo + int(g() % (unsigned long)(hi - lo + 1)); }
	double d() { return (g() >> 11) * (1.0/9007199254740992.0); }
	double d(double lo, double hi) { return lo + (hi - lo)*d(); }
	template<typename T, size_t N> T pick(const T (&a)[N]) { return a[i(0, N - 1)]; }
};

static std::map<std::string, long> g_counts;
static bool g_failed;
static void fail(const std::string& key, const std::string& msg)
{
	std::cout << "FAIL " << key << " " << msg << std::endl;
	g_failed = true;
}

static const char* typeName(EqChannelType t)
{
	switch(t)
	{
		case Channel_Float32: return "f32";
		case Channel_Unsigned32: return "u32";
		case Channel_Signed32: return "s32";
		case Channel_Float16: return "f16";
		case Channel_Unsigned16: return "u16";
		case Channel_Signed16: return "s16";
		case Channel_Unsigned8: return "u8";
		case Channel_Signed8: return "s8";
		default: return "?";
	}
}

static CqChannelList channels(EqChannelType t, int n)
{
	static const char* rgba[] = {"r", "g", "b", "a"};
	static const char* rgb2[] = {"r", "g", "b", "ra", "ga", "ba"};
	CqChannelList cl;
	for(int c = 0; c < n; ++c)
	{
		std::string name;
		if(n == 1) name = "y";
		else if(n == 2) name = c ? "a" : "y";
		else if(n <= 4) name = rgba[c];
		else if(n == 6) name = rgb2[c];
		else name = c < 3 ? rgba[c] : std::string("x") + char('0' + c);
		cl.addChannel(SqChannelInfo(name, t));
	}
	return cl;
}

static void fillRandom(Rng& r, EqChannelType t, TqUint8* p, size_t bytes)
{
	int style = r.i(0, 2);
	if(t == Channel_Float32)
	{
		float* f = reinterpret_cast<float*>(p);
		for(size_t i = 0; i < bytes/4; ++i)
			f[i] = style == 0 ? float(r.d(-1, 1)) : style == 1 ? float(r.i(-3, 3)) : float(std::pow(10., r.d(-30, 30)))*(r.i(0, 1) ? 1 : -1);
		return;
	}
	for(size_t i = 0; i < bytes; ++i)
		p[i] = style == 0 ? TqUint8(r.g()) : style == 1 ? TqUint8(r.i(0, 3)*85) : TqUint8(i/37);
}

struct Sub
{
	int w, h;
	std::vector<TqUint8> px;
};

static std::string word(Rng& r)
{
	std::string s;
	int n = r.i(1, 30);
	for(int i = 0; i < n; ++i) s += char(r.i(33, 126));
	return s;
}

#define SAME_ATTR(A) { const Attr::A::type* p = hdr.findPtr<Attr::A>(); const Attr::A::type* q = got.findPtr<Attr::A>(); \
	if(p && !q) fail(where + "attr-lost", #A); else if(p && !same(*p, *q)) fail(where + "attr-changed", #A); }
template<typename T> bool same(const T& a, const T& b) { return a == b; }
static bool same(const SqWrapModes& a, const SqWrapModes& b) { return a.sWrap == b.sWrap && a.tWrap == b.tWrap; }
static bool same(const SqImageRegion& a, const SqImageRegion& b) { return a.width == b.width && a.height == b.height && a.topLeftX == b.topLeftX && a.topLeftY == b.topLeftY; }
static bool same(const SqTileInfo& a, const SqTileInfo& b) { return a.width == b.width && a.height == b.height; }
static bool same(const CqMatrix& a, const CqMatrix& b)
{
	for(int i = 0; i < 16; ++i) if(a.pElements()[i] != b.pElements()[i]) return false;
	return true;
}
static bool same(float a, float b) { return std::fabs(a - b) <= 1e-6f*(1 + std::fabs(b)); }

static void checkHeader(const CqTexFileHeader& hdr, const CqTexFileHeader& got, const Sub& s, const std::string& where)
{
	if(got.width() != s.w || got.height() != s.h)
		fail(where + "size", "size changed");
	if(!got.channelList().channelTypesMatch(hdr.channelList()))
		fail(where + "channels", "channel types or number changed");
	SAME_ATTR(Software) SAME_ATTR(HostName) SAME_ATTR(Description) SAME_ATTR(PixelAspectRatio) SAME_ATTR(DisplayWindow)
	SAME_ATTR(WrapModes) SAME_ATTR(TextureFormat) SAME_ATTR(FieldOfViewCot) SAME_ATTR(WorldToScreenMatrix)
	SAME_ATTR(WorldToCameraMatrix) SAME_ATTR(Compression) SAME_ATTR(TileInfo)
	g_counts["headers_compared"]++;
}

static CqMatrix randMatrix(Rng& r)
{
	float m[16];
	for(int i = 0; i < 16; ++i) m[i] = float(r.d(-10, 10));
	return CqMatrix(m);
}

static void independentRead(const std::string& path, const std::vector<Sub>& subs, EqChannelType t, int nch, const std::string& what);

static void ioCase(Rng& r, const std::string& dir, int id)
{
	static const EqChannelType types[] = {Channel_Float32, Channel_Unsigned32, Channel_Signed32, Channel_Unsigned16, Channel_Signed16, Channel_Unsigned8, Channel_Signed8};
	static const char* compr[] = {"none", "lzw", "packbits", "deflate"};
	static const EqWrapMode wraps[] = {WrapMode_Black, WrapMode_Periodic, WrapMode_Clamp};
	static const EqTextureFormat fmts[] = {TextureFormat_Plain, TextureFormat_CubeEnvironment, TextureFormat_LatLongEnvironment, TextureFormat_Shadow};
	EqChannelType t = r.pick(types);
	int nch = r.i(1, 7);
	std::string path = dir + "/f" + std::to_string(id) + ".tif";
	CqTexFileHeader hdr;
	hdr.channelList() = channels(t, nch);
	bool tiled = r.i(0, 2) == 0;
	int th = 0, tw = 0;
	if(tiled)
	{
		tw = 16*r.i(1, 3); th = 16*r.i(1, 3);
		hdr.set<Attr::TileInfo>(SqTileInfo(tw, th));
	}
	std::string c = r.pick(compr);
	if(r.i(0, 4)) hdr.set<Attr::Compression>(c); else c = "default";
	if(r.i(0, 1)) hdr.set<Attr::Software>(word(r));
	if(r.i(0, 1)) hdr.set<Attr::HostName>(word(r));
	if(r.i(0, 1)) hdr.set<Attr::Description>(word(r));
	if(r.i(0, 1)) hdr.set<Attr::PixelAspectRatio>(float(r.d(.3, 3)));
	if(r.i(0, 1)) hdr.set<Attr::WrapModes>(SqWrapModes(r.pick(wraps), r.pick(wraps)));
	if(r.i(0, 1)) hdr.set<Attr::TextureFormat>(r.pick(fmts));
	if(r.i(0, 1)) hdr.set<Attr::FieldOfViewCot>(float(r.d(.1, 4)));
	if(r.i(0, 1)) hdr.set<Attr::WorldToScreenMatrix>(randMatrix(r));
	if(r.i(0, 1)) hdr.set<Attr::WorldToCameraMatrix>(randMatrix(r));
	if(r.i(0, 2) == 0) hdr.set<Attr::DisplayWindow>(SqImageRegion(r.i(1, 300), r.i(1, 300), r.i(0, 50), r.i(0, 50)));
	int nsub = r.i(0, 2) ? 1 : r.i(2, 4);
	std::vector<Sub> subs(nsub);
	const int bpp = hdr.channelList().bytesPerPixel();
	std::string what = std::string(typeName(t)) + "x" + std::to_string(nch) + (tiled ? " tiled " + std::to_string(tw) + "x" + std::to_string(th) : " lines") + " " + c;
	{
		boost::shared_ptr<IqMultiTexOutputFile> out;
		for(int k = 0; k < nsub; ++k)
		{
			Sub& s = subs[k];
			s.w = r.i(1, r.i(0, 1) ? 70 : 200); s.h = r.i(1, r.i(0, 1) ? 70 : 200);
			s.px.resize(size_t(s.w)*s.h*bpp);
			fillRandom(r, t, &s.px[0], s.px.size());
			if(k == 0)
			{
				hdr.setWidth(s.w); hdr.setHeight(s.h);
				out = IqMultiTexOutputFile::open(path, ImageFile_Tiff, hdr);
			}
			else
				out->newSubImage(s.w, s.h);
			int y = 0;
			while(y < s.h)
			{
				int n = r.i(1, s.h);
				if(tiled) n = th*r.i(1, 4);
				n = std::min(n, s.h - y);
				CqMixedImageBuffer buf(hdr.channelList(), s.w, n);
				std::memcpy(buf.rawData(), &s.px[size_t(y)*s.w*bpp], size_t(n)*s.w*bpp);
				if(out->currentLine() != y)
					fail("write:current-line", what);
				out->writePixels(buf);
				y += n;
			}
		}
	}
	if(hdr.findPtr<Attr::Compression>() == 0)
		hdr.set<Attr::Compression>("lzw");
	g_counts["files_written"]++;
	independentRead(path, subs, t, nch, what);
	if(tiled)
	{
		boost::shared_ptr<IqTiledTexInputFile> in = IqTiledTexInputFile::open(path);
		if(in->numSubImages() != nsub)
			fail("tiled:subimages", what);
		for(int k = 0; k < nsub && k < in->numSubImages(); ++k)
		{
			Sub& s = subs[k];
			if(in->width(k) != s.w || in->height(k) != s.h)
				fail("tiled:size", what);
			checkHeader(hdr, in->header(k), s, "tiled:");
			SqTileInfo ti = in->tileInfo();
			if(ti.width != tw || ti.height != th)
				fail("tiled:tile-size", what);
			for(int ty = 0; ty*th < s.h; ++ty)
				for(int tx = 0; tx*tw < s.w; ++tx)
				{
					CqMixedImageBuffer buf;
					in->readTile(buf, tx, ty, k);
					int ew = std::min(tw, s.w - tx*tw), eh = std::min(th, s.h - ty*th);
					if(buf.width() < ew || buf.height() < eh)
					{
						fail("tiled:small-tile", what);
						continue;
					}
					for(int y = 0; y < eh; ++y)
						if(std::memcmp(buf.rawData() + size_t(y)*buf.width()*bpp, &s.px[(size_t(ty*th + y)*s.w + tx*tw)*bpp], size_t(ew)*bpp))
						{
							fail("tiled:pixels", what + " size " + std::to_string(s.w) + "x" + std::to_string(s.h) + " tile " + std::to_string(tx) + "," + std::to_string(ty) + " row " + std::to_string(y));
							ty = tx = 1 << 20;
							break;
						}
					g_counts["tiles_compared"]++;
				}
		}
	}
	{
		boost::shared_ptr<IqMultiTexInputFile> in = IqMultiTexInputFile::open(path);
		if(in->numSubImages() != nsub)
			fail("lines:subimages", what);
		for(int q = 0; q < nsub + 2; ++q)
		{
			int k = q < nsub ? q : r.i(0, nsub - 1);
			Sub& s = subs[k];
			in->setImageIndex(k);
			checkHeader(hdr, in->header(), s, "lines:");
			for(int m = 0; m < 3; ++m)
			{
				int y0 = m == 0 ? 0 : r.i(0, s.h - 1), n = m == 0 ? s.h : r.i(1, s.h - y0);
				CqMixedImageBuffer buf;
				in->readPixels(buf, y0, n);
				if(buf.width() != s.w || buf.height() != n)
					fail("lines:buffer-size", what);
				else if(std::memcmp(buf.rawData(), &s.px[size_t(y0)*s.w*bpp], size_t(n)*s.w*bpp))
					fail("lines:pixels", what + " size " + std::to_string(s.w) + "x" + std::to_string(s.h) + " from " + std::to_string(y0));
				g_counts["regions_compared"]++;
			}
		}
	}
	g_counts[std::string("type_") + typeName(t)]++;
	g_counts["compression_" + c]++;
}
