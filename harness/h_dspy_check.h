static void tagMatrix(const Display& d, TIFF* t, ttag_t tag, const float* want, const char* name)
{
	float* m = 0;
	if(!d.matrices) return;
	if(!TIFFGetField(t, tag, &m) || !m) { fail("matrix", d.kind + ": " + name + " is missing"); return; }
	for(int i = 0; i < 16; ++i)
		if(m[i] != want[i]) { fail("matrix", d.kind + ": " + name + " differs"); return; }
	++g_counts["matrices_checked"];
}

static std::string where(const Display& d, const std::string& n, int x, int y, double got, double want)
{
	return d.kind + " " + std::to_string(d.f.w) + "x" + std::to_string(d.f.h) + " at " + std::to_string(d.f.ox) + "," + std::to_string(d.f.oy)
		+ " of " + std::to_string(d.f.fw) + "x" + std::to_string(d.f.fh) + ": channel " + n + " at " + std::to_string(x) + "," + std::to_string(y)
		+ " reads " + S(got) + ", was sent " + S(want) + " (type " + std::to_string(d.type) + ", " + std::to_string(d.names.size()) + " channels, compression \"" + d.compression + "\")";
}

static double get(const unsigned char* p, int bits, int fmt)
{
	if(bits == 8) return *p;
	if(bits == 16) { unsigned short v; memcpy(&v, p, 2); return v; }
	if(fmt == SAMPLEFORMAT_IEEEFP) { float v; memcpy(&v, p, 4); return v; }
	unsigned v; memcpy(&v, p, 4); return v;
}

static void checkTiff(Display& d, int dirNum, int dirs)
{
	TIFF* t = TIFFOpen(d.file.c_str(), "r");
	if(!t) { fail("unreadable", d.kind + ": the file can't be opened"); return; }
	if(d.kind == "shadow" && TIFFNumberOfDirectories(t) != dirs)
		fail("directories", d.kind + ": " + std::to_string(TIFFNumberOfDirectories(t)) + " maps in the file for " + std::to_string(dirs));
	if(dirNum && !TIFFSetDirectory(t, dirNum)) { fail("directories", "no second map"); TIFFClose(t); return; }
	uint32_t w = 0, h = 0;
	uint16_t spp = 1, bits = 1, fmt = SAMPLEFORMAT_UINT, comp = 0;
	TIFFGetField(t, TIFFTAG_IMAGEWIDTH, &w);
	TIFFGetField(t, TIFFTAG_IMAGELENGTH, &h);
	TIFFGetFieldDefaulted(t, TIFFTAG_SAMPLESPERPIXEL, &spp);
	TIFFGetFieldDefaulted(t, TIFFTAG_BITSPERSAMPLE, &bits);
	TIFFGetFieldDefaulted(t, TIFFTAG_SAMPLEFORMAT, &fmt);
	TIFFGetField(t, TIFFTAG_COMPRESSION, &comp);
	int size = 8*typeSize(d.type);
	bool flt = d.type == PkDspyFloat32;
	if((int)w != d.f.w || (int)h != d.f.h || spp != d.names.size() || bits != size || (fmt == SAMPLEFORMAT_IEEEFP) != flt)
	{
		fail("header", d.kind + ": file is " + std::to_string(w) + "x" + std::to_string(h) + "x" + std::to_string(spp) + ", " + std::to_string(bits) + " bits, format " + std::to_string(fmt)
			+ " for " + std::to_string(d.f.w) + "x" + std::to_string(d.f.h) + "x" + std::to_string(d.names.size()) + ", " + std::to_string(size) + " bits, type " + std::to_string(d.type));
		TIFFClose(t);
		return;
	}
	char* s = 0;
	if(!d.description.empty() && (!TIFFGetField(t, TIFFTAG_IMAGEDESCRIPTION, &s) || d.description != s))
		fail("description", d.kind + ": the description is \"" + (s ? s : "") + "\" for \"" + d.description + "\"");
	if(!d.host.empty() && (!TIFFGetField(t, TIFFTAG_HOSTCOMPUTER, &s) || d.host != s))
		fail("host", d.kind + ": the host is wrong");
	tagMatrix(d, t, TIFFTAG_PIXAR_MATRIX_WORLDTOCAMERA, d.Nl, "world to camera");
	tagMatrix(d, t, TIFFTAG_PIXAR_MATRIX_WORLDTOSCREEN, d.NP, "world to screen");
	if(d.kind != "shadow")
	{
		float px = -1, py = -1;
		uint32_t fw = 0, fh = 0;
		TIFFGetField(t, TIFFTAG_XPOSITION, &px); TIFFGetField(t, TIFFTAG_YPOSITION, &py);
		TIFFGetField(t, TIFFTAG_PIXAR_IMAGEFULLWIDTH, &fw); TIFFGetField(t, TIFFTAG_PIXAR_IMAGEFULLLENGTH, &fh);
		if(px != d.f.ox || py != d.f.oy || (int)fw != d.f.fw || (int)fh != d.f.fh)
			fail("window", d.kind + ": the crop window reads " + S(px) + "," + S(py) + " of " + std::to_string(fw) + "x" + std::to_string(fh));
		if(spp == 4)
		{
			uint16_t n = 0, *types = 0;
			if(!TIFFGetField(t, TIFFTAG_EXTRASAMPLES, &n, &types) || n != 1 || types[0] != EXTRASAMPLE_ASSOCALPHA)
				fail("alpha", d.kind + ": the fourth channel isn't marked as alpha");
		}
	}
	int bytes = bits/8*spp;
	std::vector<unsigned char> px(size_t(w)*h*bytes);
	if(TIFFIsTiled(t))
	{
		uint32_t tw, th;
		TIFFGetField(t, TIFFTAG_TILEWIDTH, &tw); TIFFGetField(t, TIFFTAG_TILELENGTH, &th);
		std::vector<unsigned char> tile(TIFFTileSize(t));
		for(uint32_t y = 0; y < h; y += th)
			for(uint32_t x = 0; x < w; x += tw)
			{
				if(TIFFReadTile(t, tile.data(), x, y, 0, 0) < 0) { fail("unreadable", d.kind + ": tile at " + std::to_string(x) + "," + std::to_string(y) + " of " + std::to_string(w) + "x" + std::to_string(h) + " can't be read"); TIFFClose(t); return; }
				for(uint32_t j = 0; j < th && y + j < h; ++j)
					memcpy(&px[((y + j)*w + x)*bytes], &tile[j*tw*bytes], bytes*std::min(tw, w - x));
			}
	}
	else
	{
		std::vector<unsigned char> line(TIFFScanlineSize(t));
		for(uint32_t y = 0; y < h; ++y)
		{
			if(TIFFReadScanline(t, line.data(), y) < 0) { fail("unreadable", d.kind + ": line " + std::to_string(y) + " can't be read"); TIFFClose(t); return; }
			memcpy(&px[y*w*bytes], line.data(), w*bytes);
		}
	}
	double least = HUGE_VAL;
	// red, green, blue and alpha come first, then the others in some order;
	// each must be somewhere
	std::vector<std::string> order;
	for(size_t k = 0; k < d.format.size(); ++k) order.push_back(d.format[k].name);
	if(d.kind != "shadow")
	{
		const char* want[] = {"r", "g", "b", "a"};
		for(size_t k = 0; k < std::min<size_t>(4, order.size()); ++k)
			if(order[k] != want[k]) { fail("order", d.kind + ": channel " + std::to_string(k) + " holds " + order[k]); TIFFClose(t); return; }
	}
	for(int y = 0; y < d.f.h; ++y)
		for(int x = 0; x < d.f.w; ++x)
			for(int k = 0; k < spp; ++k)
			{
				double got = get(&px[(y*w + x)*bytes + k*bits/8], bits, fmt), want = d.at(order[k], x + d.f.ox, y + d.f.oy);
				if(k == 0) least = std::min(least, want);
				++g_counts["pixels_file"];
				if(got != want)
				{
					fail("pixel", where(d, order[k], x, y, got, want));
					TIFFClose(t);
					return;
				}
			}
	if(d.kind == "shadow")
	{
		double v = 0;
		double* pv = 0;
		if(TIFFGetField(t, TIFFTAG_SMINSAMPLEVALUE, &pv)) { v = *(double*)&pv; }
		(void)v; (void)least;
	}
	TIFFClose(t);
}

static void checkZ(Display& d)
{
	std::ifstream in(d.file.c_str(), std::ios::binary);
	std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
	std::string head = ZFILE_HEADER;
	size_t want = head.size() + 8 + 128 + size_t(4)*d.f.w*d.f.h;
	if(all.compare(0, head.size(), head) || all.size() != want)
	{
		fail("zfile", "the depth file has " + std::to_string(all.size()) + " bytes for " + std::to_string(want));
		return;
	}
	const char* p = all.data() + head.size();
	int wh[2];
	float m[32];
	memcpy(wh, p, 8); memcpy(m, p + 8, 128);
	if(wh[0] != d.f.w || wh[1] != d.f.h) { fail("zfile", "the depth file's size is wrong"); return; }
	if(d.matrices && (memcmp(m, d.Nl, 64) || memcmp(m + 16, d.NP, 64))) fail("matrix", "the depth file's matrices differ");
	for(int y = 0; y < d.f.h; ++y)
		for(int x = 0; x < d.f.w; ++x)
		{
			float v; memcpy(&v, p + 136 + 4*(y*d.f.w + x), 4);
			double want = d.at("z", x + d.f.ox, y + d.f.oy);
			++g_counts["pixels_zfile"];
			if(v != want) { fail("pixel", where(d, "z", x, y, v, want)); return; }
		}
}

static unsigned le(const std::string& s, size_t o, int n)
{
	unsigned v = 0;
	for(int i = 0; i < n; ++i) v |= unsigned((unsigned char)s[o + i]) << 8*i;
	return v;
}
static void checkBmp(Display& d)
{
	std::ifstream in(d.file.c_str(), std::ios::binary);
	std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
	int row = (d.f.w*3 + 3)/4*4;
	if(s.size() < 54 || s.substr(0, 2) != "BM") { fail("bmp", "no bitmap header"); return; }
	if(le(s, 14, 4) != 40 || (int)le(s, 18, 4) != d.f.w || (int)le(s, 22, 4) != d.f.h || le(s, 26, 2) != 1 || le(s, 28, 2) != 24 || le(s, 30, 4) != 0)
	{
		fail("bmp", "the bitmap header reads size " + std::to_string(le(s, 14, 4)) + ", " + std::to_string(le(s, 18, 4)) + "x" + std::to_string(le(s, 22, 4)) + ", " + std::to_string(le(s, 28, 2)) + " bits");
		return;
	}
	size_t off = le(s, 10, 4);
	// (the padding after the very last line may be left off)
	if(off != 54 || s.size() + 3 < off + row*d.f.h || s.size() > off + row*d.f.h) { fail("bmp", "the bitmap has " + std::to_string(s.size()) + " bytes, its pixels start at " + std::to_string(off)); return; }
	for(int y = 0; y < d.f.h; ++y)
		for(int x = 0; x < d.f.w; ++x)
			for(int k = 0; k < 3; ++k)
			{
				const char* n[] = {"b", "g", "r"};
				std::string name = d.names.size() == 1 ? "r" : n[k];
				double got = (unsigned char)s[off + row*(d.f.h - 1 - y) + 3*x + k], want = d.at(name, x + d.f.ox, y + d.f.oy);
				++g_counts["pixels_bmp"];
				if(got != want) { fail("pixel", where(d, name, x, y, got, want)); return; }
			}
}

static void checkExr(Display& d, int index)
{
	Imf::InputFile in(d.file.c_str());
	Imath::Box2i dw = in.header().dataWindow(), disp = in.header().displayWindow();
	if(dw.min.x != d.f.ox || dw.min.y != d.f.oy || dw.max.x != d.f.ox + d.f.w - 1 || dw.max.y != d.f.oy + d.f.h - 1)
	{
		fail("window", "exr: the data window is wrong");
		return;
	}
	bool sized = false;
	for(size_t i = 0; i < d.params.size(); ++i) sized = sized || !strcmp(d.params[i].name, "OriginalSize");
	if(sized && index == 0 && (disp.min.x || disp.min.y || disp.max.x != d.f.fw - 1 || disp.max.y != d.f.fh - 1)) fail("window", "exr: the display window is wrong");
	if(d.matrices && index == 0)
	{
		const Imf::M44fAttribute* a = in.header().findTypedAttribute<Imf::M44fAttribute>("worldToCamera");
		const Imf::M44fAttribute* b = in.header().findTypedAttribute<Imf::M44fAttribute>("worldToNDC");
		if(!a || !b || memcmp(&a->value()[0][0], d.Nl, 64) || memcmp(&b->value()[0][0], d.NP, 64)) fail("matrix", "exr: the matrices differ");
		++g_counts["matrices_checked"];
	}
	std::string layer = d.layer.empty() ? "layer_" + std::to_string(index) : d.layer;
	Imf::FrameBuffer fb;
	std::vector<std::vector<float> > px(d.names.size(), std::vector<float>(d.f.w*d.f.h));
	std::vector<std::string> names;
	for(size_t k = 0; k < d.names.size(); ++k)
	{
		std::string n = d.names[k];
		if(!d.channelNames.empty()) n = d.channelNames[k];
		else if(n.size() == 1 && strchr("rgbaz", n[0])) n[0] = toupper(n[0]);
		n = layer + "." + n;
		names.push_back(n);
		const Imf::Channel* c = in.header().channels().findChannel(n);
		if(!c) { fail("channel", "exr: channel " + n + " is missing"); return; }
		if(d.names[k] != "z" && (c->type == Imf::FLOAT) != (d.pixelType == "float")) fail("type", "exr: channel " + n + " has the wrong type");
		fb.insert(n, Imf::Slice(Imf::FLOAT, (char*)(&px[k][0] - (d.f.oy*d.f.w + d.f.ox)), 4, 4*d.f.w));
	}
	in.setFrameBuffer(fb);
	in.readPixels(dw.min.y, dw.max.y);
	for(size_t k = 0; k < d.names.size(); ++k)
	{
		bool isHalf = in.header().channels().findChannel(names[k])->type == Imf::HALF;
		for(int y = 0; y < d.f.h; ++y)
			for(int x = 0; x < d.f.w; ++x)
			{
				float want = d.at(d.names[k], x + d.f.ox, y + d.f.oy), got = px[k][y*d.f.w + x];
				++g_counts["pixels_exr"];
				if(isHalf)
				{
					half hv(want);
					if(got == float(hv) || (d.compression == "piz12" && got == float(Imf::round12log(hv)))) continue;
				}
				else if(got == want) continue;
				fail("pixel", where(d, names[k], x, y, got, want));
				return;
			}
	}
}

static void check(Display& d, int dirNum = 0, int dirs = 1, int index = 0)
{
	if(d.kind == "exr") checkExr(d, index);
	else if(d.kind == "bmp") checkBmp(d);
	else if(d.kind == "zfile") checkZ(d);
	else checkTiff(d, dirNum, dirs);
}
