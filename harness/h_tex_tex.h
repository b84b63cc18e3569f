// texture creation and filtered lookup
#include <aqsis/tex/maketexture.h>
#include <aqsis/tex/filtering/itexturecache.h>
#include <aqsis/tex/filtering/itexturesampler.h>
#include <aqsis/tex/filtering/texturesampleoptions.h>
#include <aqsis/tex/filtering/samplequad.h>

struct Img
{
	int w, h, n;
	std::vector<double> v;
	Img(int w = 0, int h = 0, int n = 0) : w(w), h(h), n(n), v(size_t(w)*h*n) {}
	double& at(int x, int y, int c) { return v[(size_t(y)*w + x)*n + c]; }
	double at(int x, int y, int c) const { return v[(size_t(y)*w + x)*n + c]; }
};

static double typeMax(EqChannelType t)
{
	switch(t)
	{
		case Channel_Unsigned32: return 4294967295.;
		case Channel_Signed32: return 2147483647.;
		case Channel_Unsigned16: return 65535;
		case Channel_Signed16: return 32767;
		case Channel_Unsigned8: return 255;
		case Channel_Signed8: return 127;
		default: return 0;
	}
}
static void store(EqChannelType t, double v, TqUint8* p)
{
	switch(t)
	{
		case Channel_Float32: { float f = float(v); std::memcpy(p, &f, 4); break; }
		case Channel_Unsigned32: case Channel_Signed32: { uint32_t u = uint32_t(v); std::memcpy(p, &u, 4); break; }
		case Channel_Unsigned16: case Channel_Signed16: { uint16_t u = uint16_t(v); std::memcpy(p, &u, 2); break; }
		default: *p = TqUint8(v);
	}
}
static double load(EqChannelType t, const TqUint8* p)
{
	switch(t)
	{
		case Channel_Float32: { float f; std::memcpy(&f, p, 4); return f; }
		case Channel_Unsigned32: { uint32_t u; std::memcpy(&u, p, 4); return u; }
		case Channel_Signed32: { int32_t u; std::memcpy(&u, p, 4); return u; }
		case Channel_Unsigned16: { uint16_t u; std::memcpy(&u, p, 2); return u; }
		case Channel_Signed16: { int16_t u; std::memcpy(&u, p, 2); return u; }
		case Channel_Signed8: return int8_t(*p);
		default: return *p;
	}
}

static void writeImg(const Img& m, EqChannelType t, const std::string& path, CqTexFileHeader hdr = CqTexFileHeader())
{
	hdr.channelList() = channels(t, m.n);
	hdr.setWidth(m.w); hdr.setHeight(m.h);
	boost::shared_ptr<IqTexOutputFile> out = IqTexOutputFile::open(path, ImageFile_Tiff, hdr);
	CqMixedImageBuffer buf(hdr.channelList(), m.w, m.h);
	int bpc = bytesPerPixel(t);
	for(size_t i = 0; i < m.v.size(); ++i)
		store(t, m.v[i], buf.rawData() + i*bpc);
	out->writePixels(buf);
}

// all levels of a mipmap, read with libtiff
static std::vector<Img> readLevels(const std::string& path, EqChannelType t, int nch)
{
	std::vector<Img> r;
	TIFF* f = TIFFOpen(path.c_str(), "r");
	if(!f) { fail("maketexture:open", path); return r; }
	do
	{
		uint32_t w = 0, h = 0, tw = 0, th = 0; uint16_t spp = 0;
		TIFFGetField(f, TIFFTAG_IMAGEWIDTH, &w); TIFFGetField(f, TIFFTAG_IMAGELENGTH, &h);
		TIFFGetFieldDefaulted(f, TIFFTAG_SAMPLESPERPIXEL, &spp);
		TIFFGetField(f, TIFFTAG_TILEWIDTH, &tw); TIFFGetField(f, TIFFTAG_TILELENGTH, &th);
		if(!TIFFIsTiled(f) || spp != nch) { fail("maketexture:layout", path); break; }
		Img m(w, h, nch);
		std::vector<TqUint8> tile(TIFFTileSize(f));
		int bpc = bytesPerPixel(t);
		for(uint32_t ty = 0; ty < h; ty += th)
			for(uint32_t tx = 0; tx < w; tx += tw)
			{
				TIFFReadTile(f, &tile[0], tx, ty, 0, 0);
				for(uint32_t y = ty; y < std::min(h, ty + th); ++y)
					for(uint32_t x = tx; x < std::min(w, tx + tw); ++x)
						for(int c = 0; c < nch; ++c)
							m.at(x, y, c) = load(t, &tile[((size_t(y - ty)*tw + x - tx)*nch + c)*bpc]);
			}
		r.push_back(m);
	}
	while(TIFFReadDirectory(f));
	TIFFClose(f);
	return r;
}

static float fBox(float x, float y, float xw, float yw) { return std::fabs(x) <= .5f*xw && std::fabs(y) <= .5f*yw ? 1 : 0; }
static float fTri(float x, float y, float xw, float yw) { return std::max(0.f, 1 - std::fabs(2*x/xw))*std::max(0.f, 1 - std::fabs(2*y/yw)) + 1e-3f; }
static float fGauss(float x, float y, float xw, float yw) { x *= 2/xw; y *= 2/yw; return std::exp(-2*(x*x + y*y)); }
static float fLobe(float x, float y, float xw, float yw) { x *= 2/xw; y *= 2/yw; return float((std::cos(4*x) + .3)*std::exp(-x*x)*std::exp(-y*y)) + .1f*x; }
static RtFilterFunc g_filters[] = {fBox, fTri, fGauss, fLobe};
static const char* g_filterNames[] = {"box", "triangle", "gaussian", "lobes"};

static double wrapGet(const Img& m, int x, int y, int c, EqWrapMode sw, EqWrapMode tw)
{
	if(x < 0 || x >= m.w)
	{
		if(sw == WrapMode_Black) return 0;
		if(sw == WrapMode_Clamp) x = x < 0 ? 0 : m.w - 1;
		else x = ((x % m.w) + m.w) % m.w;
	}
	if(y < 0 || y >= m.h)
	{
		if(tw == WrapMode_Black) return 0;
		if(tw == WrapMode_Clamp) y = y < 0 ? 0 : m.h - 1;
		else y = ((y % m.h) + m.h) % m.h;
	}
	return m.at(x, y, c);
}

// the documented kernel: the filter function at twice the spacing, centred on
// the middle of a 2x2 block (even size) or on a pixel (odd size)
static void checkDownsample(const Img& a, const Img& b, RtFilterFunc f, float xw, float yw, EqWrapMode sw, EqWrapMode tw, EqChannelType t, const std::string& what)
{
	if(b.w != (a.w + 1)/2 || b.h != (a.h + 1)/2) { fail("mipmap:level-size", what); return; }
	int kw = a.w % 2 ? std::max(2*int(.5*xw) + 1, 3) : std::max(2*int(.5*(xw + 1)), 2);
	int kh = a.h % 2 ? std::max(2*int(.5*yw) + 1, 3) : std::max(2*int(.5*(yw + 1)), 2);
	std::vector<double> k(kw*kh);
	double tot = 0, sumabs = 0;
	for(int j = 0; j < kh; ++j)
		for(int i = 0; i < kw; ++i)
			tot += k[j*kw + i] = f(float((i - (kw - 1)/2.)*.5), float((j - (kh - 1)/2.)*.5), xw*.5f, yw*.5f);
	for(size_t i = 0; i < k.size(); ++i) { k[i] /= tot; sumabs += std::fabs(k[i]); }
	double mx = typeMax(t);
	for(int y = 0; y < b.h; ++y)
		for(int x = 0; x < b.w; ++x)
			for(int c = 0; c < a.n; ++c)
			{
				double s = 0, big = 0;
				for(int j = 0; j < kh; ++j)
					for(int i = 0; i < kw; ++i)
					{
						double v = wrapGet(a, 2*x - (kw - 1)/2 + i, 2*y - (kh - 1)/2 + j, c, sw, tw);
						big = std::max(big, std::fabs(v));
						s += k[j*kw + i]*v;
					}
				// weights under 1e-5 may be dropped, floats add up inexactly
				double tol = big*(1e-5*kw*kh + 2e-6*sumabs*4);
				if(mx)
				{
					s = std::min(std::max(s, 0.), mx);
					tol += .51;
				}
				if(!(std::fabs(b.at(x, y, c) - s) <= tol))
				{
					std::ostringstream o;
					o << what << " " << a.w << "x" << a.h << " pixel " << x << "," << y << "," << c << " is " << b.at(x, y, c) << " wanted " << s;
					fail(std::string("mipmap:pixels:") + (mx ? "int" : "float"), o.str());
					return;
				}
				g_counts["mip_pixels_compared"]++;
			}
}

static const char* searchPath() { return ""; }

struct Query
{
	double c[2], s1[2], s2[2];
	double sblur, tblur, sw, tw, trunc, minw;
	int start, num; double fill;
	EqWrapMode ws, wt;
	EqMipmapLerp lerp;
	SqSamplePllgram pll() const { return SqSamplePllgram(CqVector2D(c[0], c[1]), CqVector2D(s1[0], s1[1]), CqVector2D(s2[0], s2[1])); }
	CqTextureSampleOptions opts(const CqTextureSampleOptions& def) const
	{
		CqTextureSampleOptions o = def;
		o.setSBlur(sblur); o.setTBlur(tblur); o.setSWidth(sw); o.setTWidth(tw);
		o.setTruncAmount(trunc); o.setMinWidth(minw); o.setStartChannel(start); o.setNumChannels(num);
		o.setFill(fill); o.setSWrapMode(ws); o.setTWrapMode(wt); o.setLerp(lerp);
		return o;
	}
	std::string str() const
	{
		std::ostringstream o;
		o << "centre " << c[0] << "," << c[1] << " sides " << s1[0] << "," << s1[1] << " " << s2[0] << "," << s2[1] << " blur " << sblur << "," << tblur
			<< " width " << sw << "," << tw << " trunc " << trunc << " wrap " << ws << "," << wt << " lerp " << lerp;
		return o.str();
	}
};

struct Gauss
{
	double cxx, cxy, cyy, edge, minor, major, x0, y0;
	Gauss(const Query& q, int w, int h)
	{
		const double var = 1.3/(2*M_PI);
		double ax = q.s1[0]*q.sw*w, ay = q.s1[1]*q.tw*h, bx = q.s2[0]*q.sw*w, by = q.s2[1]*q.tw*h;
		double sb = .5*q.sblur*w, tb = .5*q.tblur*h;
		cxx = var*(ax*ax + bx*bx) + sb*sb + var;
		cxy = var*(ax*ay + bx*by);
		cyy = var*(ay*ay + by*by) + tb*tb + var;
		double m = .5*(cxx + cyy), d = std::sqrt(.25*(cxx - cyy)*(cxx - cyy) + cxy*cxy);
		edge = -std::log(q.trunc);
		minor = std::sqrt(8*(m - d)*edge); major = std::sqrt(8*(m + d)*edge);
		x0 = q.c[0]*w - .5; y0 = q.c[1]*h - .5;
	}
	double q(double x, double y) const
	{
		double det = cxx*cyy - cxy*cxy;
		x -= x0; y -= y0;
		return .5*(cyy*x*x - 2*cxy*x*y + cxx*y*y)/det;
	}
};

// the elliptical gaussian over level zero; false where a pixel sits on the cutoff
static bool ewaReference(const Img& m, const Query& q, std::vector<double>& out, std::vector<double>& range)
{
	Gauss g(q, m.w, m.h);
	double rx = std::sqrt(2*g.cxx*g.edge), ry = std::sqrt(2*g.cyy*g.edge), tot = 0;
	out.assign(m.n, 0);
	std::vector<double> lo(m.n, 1e300), hi(m.n, -1e300);
	for(int y = int(std::floor(g.y0 - ry)) - 1; y <= g.y0 + ry + 1; ++y)
		for(int x = int(std::floor(g.x0 - rx)) - 1; x <= g.x0 + rx + 1; ++x)
		{
			double e = g.q(x, y);
			if(std::fabs(e - g.edge) < 2e-3*g.edge) return false;
			if(e >= g.edge || e >= 6) continue;
			double wt = std::exp(-e);
			tot += wt;
			for(int c = 0; c < m.n; ++c)
			{
				double v = wrapGet(m, x, y, c, q.ws, q.wt);
				out[c] += wt*v; lo[c] = std::min(lo[c], v); hi[c] = std::max(hi[c], v);
			}
		}
	range.resize(m.n);
	if(tot == 0) return false;
	for(int c = 0; c < m.n; ++c) { out[c] /= tot; range[c] = hi[c] - lo[c]; }
	return true;
}

static void texCase(Rng& r, const std::string& dir, int id)
{
	static const EqChannelType types[] = {Channel_Float32, Channel_Float32, Channel_Unsigned8, Channel_Unsigned16, Channel_Unsigned32, Channel_Signed8, Channel_Signed16, Channel_Signed32};
	static const EqWrapMode wraps[] = {WrapMode_Black, WrapMode_Periodic, WrapMode_Clamp};
	EqChannelType t = r.pick(types);
	double mx = typeMax(t);
	int big = r.i(0, 3) ? 40 : 150;
	int n = r.i(1, 5), w = r.i(1, big), h = r.i(1, big);
	if(r.i(0, 3) == 0) { w = 1 << r.i(0, 6); h = 1 << r.i(0, 6); }
	enum { Constant, Ramp, Random, Wave, Extremes };
	int style = r.i(0, 4);
	if(style == Ramp && r.i(0, 3)) { t = Channel_Float32; mx = 0; w = r.i(60, 200); h = r.i(60, 200); }
	bool wave = style == Wave && r.i(0, 3);
	if(wave) { w = 1 << r.i(3, 6); h = 1 << r.i(3, 6); }
	Img m(w, h, n);
	std::vector<double> a(n), bx(n), by(n);
	for(int c = 0; c < n; ++c)
	{
		a[c] = r.i(0, 5) ? r.d(.2, .8) : 1; bx[c] = r.d(-.5, .5)/w*.4; by[c] = r.d(-.5, .5)/h*.4;
		if(!mx && style != Extremes) { a[c] *= 10; bx[c] *= 10; by[c] *= 10; }
	}
	if(style == Ramp) for(int c = 0; c < n; ++c) if(a[c] == 1) a[c] = .5;
	int kx = r.i(0, 2), ky = r.i(0, 2);
	for(int y = 0; y < h; ++y)
		for(int x = 0; x < w; ++x)
			for(int c = 0; c < n; ++c)
			{
				double v;
				switch(style)
				{
					case Constant: v = a[c]; break;
					case Ramp: v = a[c] + bx[c]*x + by[c]*y; break;
					case Wave: v = .5 + .5*std::cos(2*M_PI*(kx*(x + .5)/w + ky*(y + .5)/h + a[c])); break;
					case Extremes: v = r.i(0, 1); break;
					default: v = r.d(); break;
				}
				if(mx) v = std::floor(std::min(std::max(v, 0.), 1.)*mx); else v = float(v);
				m.at(x, y, c) = v;
			}
	EqWrapMode ws = r.pick(wraps), wt = r.pick(wraps);
	int fi = r.i(0, 3);
	float xw = r.i(0, 2) ? float(r.i(1, 5)) : float(r.d(1, 6)), yw = r.i(0, 2) ? float(r.i(1, 5)) : float(r.d(1, 6));
	if(wave) { ws = wt = WrapMode_Periodic; fi = 0; xw = yw = 2; }
	std::ostringstream wh;
	wh << typeName(t) << "x" << n << " " << w << "x" << h << " style " << style << " filter " << g_filterNames[fi] << " " << xw << "," << yw << " wrap " << ws << "," << wt;
	std::string what = wh.str();
	std::string in = dir + "/s" + std::to_string(id) + ".tif", out = dir + "/f" + std::to_string(id) + ".tif";
	writeImg(m, t, in);
	makeTexture(in, out, SqFilterInfo(g_filters[fi], xw, yw), SqWrapModes(ws, wt), CqRiParamList(Ri::ParamList()));
	boost::filesystem::remove(in);
	std::vector<Img> lev = readLevels(out, t, n);
	if(lev.empty()) return;
	if(lev[0].v != m.v || lev[0].w != w || lev[0].h != h) { fail("mipmap:level0", what); return; }
	for(size_t k = 0; k + 1 < lev.size(); ++k)
		checkDownsample(lev[k], lev[k + 1], g_filters[fi], xw, yw, ws, wt, t, what + " level " + std::to_string(k + 1));
	if(lev.back().w != 1 || lev.back().h != 1) fail("mipmap:last-level", what);
	g_counts["levels"] += lev.size();
	g_counts["textures_made"]++;
	boost::shared_ptr<IqTextureCache> cache = IqTextureCache::create(searchPath);
	const CqTexFileHeader* hd = cache->textureInfo(out.c_str());
	if(!hd) { fail("cache:info", what); return; }
	SqWrapModes hw = hd->find<Attr::WrapModes>(SqWrapModes());
	if(hw.sWrap != ws || hw.tWrap != wt || hd->find<Attr::TextureFormat>(TextureFormat_Unknown) != TextureFormat_Plain) fail("cache:header", what);
	IqTextureSampler& samp = cache->findTextureSampler(out.c_str());
	const CqTextureSampleOptions& def = samp.defaultSampleOptions();
	if(def.sWrapMode() != ws || def.tWrapMode() != wt) fail("sampler:default-wrap", what);
	// values as the sampler sees them
	Img u = m;
	if(mx) for(size_t i = 0; i < u.v.size(); ++i) u.v[i] /= mx;
	std::vector<double> lo(n, 1e300), hi(n, -1e300);
	double maxabs = 0;
	for(size_t k = 0; k < lev.size(); ++k)
		for(size_t i = 0; i < lev[k].v.size(); ++i)
		{
			double v = lev[k].v[i]/(mx ? mx : 1);
			lo[i % n] = std::min(lo[i % n], v); hi[i % n] = std::max(hi[i % n], v);
			maxabs = std::max(maxabs, std::fabs(v));
		}
	std::vector<Query> qs;
	std::vector<std::vector<float> > res;
	for(int k = 0; k < 60; ++k)
	{
		Query q;
		bool wide = r.i(0, style == Ramp || wave ? 1 : 3) == 0;
		for(int d = 0; d < 2; ++d)
		{
			q.c[d] = r.i(0, 3) ? r.d(0, 1) : r.d(-2.5, 3.5);
			double sz = d ? h : w;
			q.s1[d] = r.i(0, 4) ? r.d(-1, 1)*(wide ? 6 : 1.2)/sz : 0;
			q.s2[d] = r.i(0, 4) ? r.d(-1, 1)*(wide ? 6 : 1.2)/sz : 0;
			if(wide && r.i(0, 5) == 0) q.s1[d] *= 10;
		}
		bool blur = r.i(0, 3) == 0;
		q.sblur = q.tblur = 0;
		if(blur) { q.sblur = r.i(0, 1) ? r.d(0, .2) : r.d(0, 2)/w; q.tblur = r.i(0, 1) ? r.d(0, .2) : r.d(0, 2)/h; }
		q.sw = q.tw = 1;
		if(r.i(0, 2) == 0) { q.sw = r.d(0, 2); q.tw = r.d(0, 2); }
		q.trunc = r.i(0, 1) ? .05 : r.d(.01, .2);
		q.minw = 2;
		q.start = r.i(0, 2) ? 0 : r.i(0, n + 1); q.num = r.i(1, n + 2); q.fill = r.d();
		q.ws = ws; q.wt = wt;
		if(!wave && r.i(0, 2) == 0) { q.ws = r.pick(wraps); q.wt = r.pick(wraps); }
		q.lerp = r.i(0, 3) ? Lerp_Auto : r.i(0, 1) ? Lerp_Always : Lerp_Never;
		std::vector<float> o(q.num + 2, -777.f);
		CqTextureSampleOptions opts = q.opts(def);
		SqSamplePllgram pl = q.pll();
		if(r.i(0, 1))
			samp.sample(pl, opts, &o[1]);
		else
		{
			// the same parallelogram as a quad
			CqVector2D v1 = pl.c - .5*pl.s1 + .5*pl.s2, v2 = pl.c + .5*pl.s1 + .5*pl.s2, v3 = pl.c - .5*pl.s1 - .5*pl.s2, v4 = pl.c + .5*pl.s1 - .5*pl.s2;
			samp.sample(SqSampleQuad(v1, v2, v3, v4), opts, &o[1]);
			g_counts["quads"]++;
		}
		if(o[0] != -777.f || o[q.num + 1] != -777.f) fail("sampler:overrun", what);
		qs.push_back(q); res.push_back(o);
		g_counts["samples"]++;
		Gauss g(q, w, h);
		std::string kind = std::string(q.sw != 1 || q.tw != 1 ? "width:" : "") + (q.ws == q.wt ? "" : "mixedwrap:") + (blur ? "blur" : "plain");
		for(int c = 0; c < q.num; ++c)
		{
			float got = o[1 + c];
			int ch = q.start + c;
			if(ch >= n)
			{
				if(!(std::fabs(got - q.fill) <= 1e-6)) fail("sampler:fill", what + " " + q.str());
				g_counts["fills"]++;
				continue;
			}
			double l = lo[ch], hh = hi[ch];
			if(q.ws == WrapMode_Black || q.wt == WrapMode_Black) { l = std::min(l, 0.); hh = std::max(hh, 0.); }
			if(!(got >= l - 1e-5*maxabs && got <= hh + 1e-5*maxabs))
			{
				std::ostringstream s; s << what << " " << q.str() << " channel " << ch << " is " << got << " outside " << l << ".." << hh;
				fail("sampler:bounds", s.str());
			}
		}
		if(g_failed) return;
		double levelCts = std::log2(g.minor/q.minw);
		bool inside = levelCts < .8 && q.lerp != Lerp_Always && (!blur || q.lerp == Lerp_Never || levelCts < -.02) && g.major < 18*g.minor && (lev.size() > 1 || g.major < 18);
		if(inside)
		{
			std::vector<double> ref, range;
			if(!ewaReference(u, q, ref, range)) continue;
			for(int c = 0; c < q.num && q.start + c < n; ++c)
			{
				int ch = q.start + c;
				double tol = .014*range[ch] + 1e-4*maxabs;
				if(!(std::fabs(o[1 + c] - ref[ch]) <= tol))
				{
					std::ostringstream s; s << what << " " << q.str() << " channel " << ch << " is " << o[1 + c] << " wanted " << ref[ch] << " +- " << tol;
					fail("sampler:value:" + kind, s.str());
					return;
				}
				g_counts["values_compared"]++;
				g_counts["values_" + kind]++;
			}
		}
		else if(style == Ramp && mx == 0)
		{
			// the middle of a linear texture, on any level
			double L = std::max(0., std::floor(levelCts)) + 1, px = std::pow(2, L);
			double rx = std::sqrt(2*g.cxx*g.edge) + 5*px, ry = std::sqrt(2*g.cyy*g.edge) + 5*px;
			if(fi == 3 || g.major > 10*g.minor || g.x0 - rx < 0 || g.x0 + rx > w - 1 || g.y0 - ry < 0 || g.y0 + ry > h - 1) continue;
			for(int c = 0; c < q.num && q.start + c < n; ++c)
			{
				int ch = q.start + c;
				double want = a[ch] + bx[ch]*g.x0 + by[ch]*g.y0, tol = .25*px*(std::fabs(bx[ch]) + std::fabs(by[ch])) + 1e-4*maxabs;
				if(!(std::fabs(o[1 + c] - want) <= tol))
				{
					std::ostringstream s; s << what << " " << q.str() << " channel " << ch << " is " << o[1 + c] << " wanted " << want << " +- " << tol << " level " << levelCts;
					fail("sampler:ramp", s.str());
					return;
				}
				g_counts["ramps_compared"]++;
			}
		}
		else if(style == Wave && g.major < 18*g.minor && (w & (w - 1)) == 0 && (h & (h - 1)) == 0 && 8*kx*std::pow(2., std::max(0., std::ceil(levelCts))) <= w && 8*ky*std::pow(2., std::max(0., std::ceil(levelCts))) <= h && q.ws == WrapMode_Periodic && q.wt == WrapMode_Periodic && ws == WrapMode_Periodic && wt == WrapMode_Periodic && (fi == 0 && xw == 2 && yw == 2))
		{
			double fx = 2*M_PI*kx/w, fy = 2*M_PI*ky/h;
			double att = std::exp(-.5*(fx*fx*g.cxx + 2*fx*fy*g.cxy + fy*fy*g.cyy));
			for(int c = 0; c < q.num && q.start + c < n; ++c)
			{
				int ch = q.start + c;
				double want = .5 + .5*att*std::cos(2*M_PI*(kx*q.c[0] + ky*q.c[1] + a[ch]));
				if(!(std::fabs(o[1 + c] - want) <= .15))
				{
					std::ostringstream s; s << what << " " << q.str() << " k " << kx << "," << ky << " channel " << ch << " is " << o[1 + c] << " wanted " << want << " level " << levelCts;
					fail("sampler:wave", s.str());
					return;
				}
				g_counts["waves_compared"]++;
			}
		}
	}
	// another cache, in another order: the same values
	boost::shared_ptr<IqTextureCache> cache2 = IqTextureCache::create(searchPath);
	for(int k = int(qs.size()) - 1; k >= 0; k -= r.i(1, 3))
	{
		if(r.i(0, 9) == 0) cache2->flush();
		IqTextureSampler& s2 = cache2->findTextureSampler(out.c_str());
		std::vector<float> o(qs[k].num);
		s2.sample(qs[k].pll(), qs[k].opts(s2.defaultSampleOptions()), &o[0]);
		for(int c = 0; c < qs[k].num; ++c)
			if(!(std::fabs(o[c] - res[k][1 + c]) <= 2e-5*(1 + maxabs)))
			{
				// a pixel on the cutoff may go either way between quads and parallelograms
				std::vector<double> ref, range;
				if(!ewaReference(u, qs[k], ref, range)) break;
				int ch = qs[k].start + c;
				if(ch < n && std::fabs(o[c] - res[k][1 + c]) <= .014*(hi[ch] - lo[ch])) continue;
				std::ostringstream s; s << what << " " << qs[k].str() << " " << res[k][1 + c] << " then " << o[c];
				fail("sampler:order", s.str());
				return;
			}
		g_counts["repeats"]++;
	}
}
