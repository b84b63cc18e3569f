// damaged image files: an exception or pixels, never memory errors
#include <aqsis/version.h>

static std::string slurp(const std::string& p)
{
	std::ifstream f(p.c_str(), std::ios::binary);
	std::ostringstream o; o << f.rdbuf();
	return o.str();
}
static void spit(const std::string& p, const std::string& s)
{
	std::ofstream f(p.c_str(), std::ios::binary);
	f << s;
}
static uint32_t get(const std::string& s, size_t o, int n)
{
	uint32_t v = 0;
	for(int i = 0; i < n && o + i < s.size(); ++i) v |= uint32_t(TqUint8(s[o + i])) << 8*i;
	return v;
}
static void put(std::string& s, size_t o, int n, uint32_t v)
{
	for(int i = 0; i < n && o + i < s.size(); ++i) s[o + i] = char(v >> 8*i);
}
static uint32_t nasty(Rng& r, uint32_t old)
{
	static const uint32_t v[] = {0, 1, 2, 3, 4, 7, 8, 16, 17, 32, 33, 64, 255, 256, 1000, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu};
	switch(r.i(0, 4))
	{
		case 0: return old + 1;
		case 1: return old - 1;
		case 2: return old*2;
		default: return r.pick(v);
	}
}

static void mutate(Rng& r, std::string& s)
{
	bool tiff = s.size() > 8 && s.compare(0, 4, std::string("II\x2A\x00", 4)) == 0;
	if(tiff && r.i(0, 3))
	{
		std::vector<size_t> ents;
		size_t ifd = get(s, 4, 4);
		for(int k = 0; k < 8 && ifd && ifd + 2 < s.size(); ++k)
		{
			int n = get(s, ifd, 2);
			for(int i = 0; i < n && ifd + 2 + 12*i + 12 <= s.size(); ++i) ents.push_back(ifd + 2 + 12*i);
			ifd = get(s, ifd + 2 + 12*n, 4);
		}
		int times = r.i(1, 3);
		for(int k = 0; k < times && !ents.empty(); ++k)
		{
			size_t e = ents[r.i(0, int(ents.size()) - 1)];
			switch(r.i(0, 9))
			{
				case 0: put(s, e, 2, r.i(0, 1) ? nasty(r, get(s, e, 2)) : get(s, ents[r.i(0, int(ents.size()) - 1)], 2)); break;
				case 1: put(s, e + 2, 2, r.i(0, 14)); break;
				case 2: put(s, e + 4, 4, nasty(r, get(s, e + 4, 4))); break;
				default: put(s, e + 8, get(s, e + 2, 2) == 3 ? 2 : 4, nasty(r, get(s, e + 8, get(s, e + 2, 2) == 3 ? 2 : 4)));
			}
		}
		if(r.i(0, 3)) return;
	}
	switch(r.i(0, 3))
	{
		case 0: s.resize(r.i(0, int(s.size()))); break;
		case 1:
		{
			int n = r.i(1, 12);
			for(int k = 0; k < n && !s.empty(); ++k) s[r.i(0, int(std::min<size_t>(s.size(), r.i(0, 1) ? 400 : 1u << 30)) - 1)] = char(r.i(0, 255));
			break;
		}
		case 2:
			for(int k = r.i(1, 4); k > 0 && s.size() > 8; --k) { size_t o = r.i(4, int(std::min<size_t>(s.size(), 400)) - 4); put(s, o, 4, nasty(r, get(s, o, 4))); }
			break;
		default:
		{
			if(s.size() < 4) break;
			size_t a = r.i(0, int(s.size()) - 2), n = r.i(1, int(s.size() - a)), b = r.i(0, int(s.size()) - 1);
			if(r.i(0, 1)) s.insert(b, s.substr(a, n)); else s.erase(a, n);
			break;
		}
	}
}

static void touch(const TqUint8* p, size_t n)
{
	volatile unsigned sum = 0;
	for(size_t i = 0; i < n; ++i) sum += p[i];
}

template<typename F> static bool attempt(const char* name, F f)
{
	try { f(); g_counts[std::string(name) + "_ok"]++; return true; }
	catch(std::exception&) { g_counts[std::string(name) + "_refused"]++; return false; }
}

static void badCase(Rng& r, const std::string& dir, int id)
{
	std::string path = dir + "/f" + std::to_string(id) + ".tif", bad = dir + "/b" + std::to_string(id), out = dir + "/o" + std::to_string(id);
	int k = r.i(0, 8);
	if(k < 2) tiffCase(r, path);
	else if(k == 2) pngCase(r, path);
	else if(k == 3) exrCase(r, path);
	else if(k == 4) texCase(r, dir, id);
	else if(k == 5) envCase(r, dir, id);
	else if(k == 6) shadowCase(r, dir, id);
	else if(k == 7)
	{
		int w = r.i(1, 20), h = r.i(1, 20);
		std::string s = "Aqsis ZFile" AQSIS_VERSION_STR;
		std::string n(8, 0); put(n, 0, 4, w); put(n, 4, 4, h);
		s += n + std::string(4*(32 + w*h), '\x3f');
		spit(path, s);
	}
	else
	{
		// the format written by the bake() shadeop
		std::ostringstream o;
		o << "Aqsis bake file\n" << r.i(1, 4) << "\n";
		int n = r.i(0, 200);
		int ch = r.i(1, 4);
		for(int i = 0; i < n; ++i)
		{
			for(int c = 0; c < ch + 2; ++c) o << (r.i(0, 30) ? r.d(-.1, 1.1) : r.d(-1e9, 1e9)) << " ";
			o << (r.i(0, 30) ? "\n" : r.i(0, 1) ? " x\n" : "");
		}
		spit(path, o.str());
	}
	std::string good = slurp(path);
	boost::filesystem::remove(path);
	g_counts["base_files"]++;
	for(int m = 0; m < 6; ++m)
	{
		std::string s = good;
		mutate(r, s);
		spit(bad, s);
		std::cout << "MUT " << m << " kind " << k << " size " << s.size() << std::endl;
		g_counts["damaged_files"]++;
		attempt("open", [&]{
			boost::shared_ptr<IqTexInputFile> in = IqTexInputFile::open(bad);
			const CqTexFileHeader& h = in->header();
			if(double(h.width())*h.height()*h.channelList().bytesPerPixel() > 2e8) return;
			CqMixedImageBuffer b;
			in->readPixels(b);
			touch(b.rawData(), size_t(b.width())*b.height()*b.channelList().bytesPerPixel());
			int y = r.i(0, h.height() - 1), n = r.i(1, h.height() - y);
			in->readPixels(b, y, n);
			touch(b.rawData(), size_t(b.width())*b.height()*b.channelList().bytesPerPixel());
		});
		attempt("multi", [&]{
			boost::shared_ptr<IqMultiTexInputFile> in = IqMultiTexInputFile::open(bad);
			for(int q = 0; q < in->numSubImages() && q < 12; ++q)
			{
				in->setImageIndex(q);
				const CqTexFileHeader& h = in->header();
				if(double(h.width())*h.height()*h.channelList().bytesPerPixel() > 2e8) return;
				CqMixedImageBuffer b;
				in->readPixels(b);
				touch(b.rawData(), size_t(b.width())*b.height()*b.channelList().bytesPerPixel());
			}
		});
		attempt("tiled", [&]{
			boost::shared_ptr<IqTiledTexInputFile> in = r.i(0, 1) ? IqTiledTexInputFile::open(bad) : IqTiledTexInputFile::openAny(bad);
			for(int q = 0; q < in->numSubImages() && q < 12; ++q)
			{
				SqTileInfo t = in->tileInfo();
				if(double(t.width)*t.height > 1e7) return;
				int nx = (in->width(q) - 1)/t.width, ny = (in->height(q) - 1)/t.height;
				for(int a = 0; a < 4; ++a)
				{
					CqMixedImageBuffer b;
					in->readTile(b, a ? r.i(0, nx) : nx, a ? r.i(0, ny) : ny, q);
					touch(b.rawData(), size_t(b.width())*b.height()*b.channelList().bytesPerPixel());
				}
			}
		});
		// the renderer's view: a missing or bad texture is replaced by a dummy
		try
		{
			boost::shared_ptr<IqTextureCache> cache = IqTextureCache::create(searchPath);
			const CqTexFileHeader* hd = cache->textureInfo(bad.c_str());
			if(!hd || double(hd->width())*hd->height()*hd->channelList().bytesPerPixel() < 2e8)
			{
				float o[8];
				IqTextureSampler& t = cache->findTextureSampler(bad.c_str());
				CqTextureSampleOptions op = t.defaultSampleOptions();
				op.setNumChannels(3);
				attempt("sample", [&]{ for(int a = 0; a < 5; ++a)
					t.sample(SqSamplePllgram(CqVector2D(r.d(-1, 2), r.d(-1, 2)), CqVector2D(r.d(0, .2), 0), CqVector2D(0, r.d(0, .2))), op, o); });
				IqEnvironmentSampler& e = cache->findEnvironmentSampler(bad.c_str());
				attempt("sample", [&]{ for(int a = 0; a < 5; ++a)
				{
					V3 R = randDir(r);
					e.sample(Sq3DSamplePllgram(cq(R), CqVector3D(.01, 0, 0), CqVector3D(0, .01, 0)), op, o);
				} });
				IqShadowSampler& sh = cache->findShadowSampler(bad.c_str());
				CqShadowSampleOptions so = sh.defaultSampleOptions();
				so.setNumChannels(1);
				attempt("sample", [&]{ for(int a = 0; a < 5; ++a)
				{
					V3 c = randDir(r);
					Sq3DSampleQuad q(cq(c), cq(c + V3{.1, 0, 0}), cq(c + V3{0, .1, 0}), cq(c + V3{.1, .1, 0}));
					sh.sample(q, so, o);
				} });
				IqOcclusionSampler& oc = cache->findOcclusionSampler(bad.c_str());
				attempt("sample", [&]{ for(int a = 0; a < 3; ++a)
				{
					V3 c = randDir(r);
					oc.sample(Sq3DSamplePllgram(cq(c), CqVector3D(.1, 0, 0), CqVector3D(0, .1, 0)), cq(randDir(r)), so, o);
				} });
				g_counts["cache_lookups"]++;
			}
		}
		catch(std::bad_alloc&) { g_counts["cache_bad_alloc"]++; }
		catch(XqException& e) { fail("cache:throws:" + std::to_string(k), e.what()); }
		double px = 1e18;
		attempt("size", [&]{ boost::shared_ptr<IqTexInputFile> in = IqTexInputFile::open(bad); px = double(in->header().width())*in->header().height()*in->header().channelList().numChannels(); });
		if(px < 3e5 || k == 8)
		{
			attempt("maketexture", [&]{ makeTexture(bad, out, SqFilterInfo(fBox, 2, 2), SqWrapModes(WrapMode_Clamp, WrapMode_Periodic), CqRiParamList(Ri::ParamList())); });
			attempt("makeshadow", [&]{ makeShadow(bad, out, CqRiParamList(Ri::ParamList())); });
			attempt("makelatlong", [&]{ makeLatLongEnvironment(bad, out, SqFilterInfo(fBox, 2, 2), CqRiParamList(Ri::ParamList())); });
		}
	}
	boost::filesystem::remove(bad); boost::filesystem::remove(out); boost::filesystem::remove(bad + ".tif");
}
