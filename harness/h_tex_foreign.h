// files written directly with libtiff, libpng and OpenEXR (not by aqsis), read
// through aqsis; and files written by aqsis read directly with libtiff
#include <tiffio.h>
#include <png.h>
#include <ImfOutputFile.h>
#include <ImfChannelList.h>
#include <ImfFrameBuffer.h>
#include <ImfHeader.h>
#include <half.h>

// compare a whole read and two partial reads with the wanted bytes
static void readBack(Rng& r, IqTexInputFile& in, const std::string& what, const std::string& key, int w, int h, int bpp, const std::vector<TqUint8>& want)
{
	if(in.header().width() != w || in.header().height() != h) { fail(key + "size", what); return; }
	if(in.header().channelList().bytesPerPixel() != bpp) { fail(key + "channels", what); return; }
	for(int m = 0; m < 4; ++m)
	{
		int y0 = m == 0 ? 0 : r.i(0, h - 1), n = m == 0 ? h : r.i(1, h - y0);
		CqMixedImageBuffer buf;
		in.readPixels(buf, y0, n);
		if(buf.width() != w || buf.height() != n)
			fail(key + "buffer-size", what);
		else if(std::memcmp(buf.rawData(), &want[size_t(y0)*w*bpp], size_t(n)*w*bpp))
			fail(key + "pixels", what + " size " + std::to_string(w) + "x" + std::to_string(h) + " from " + std::to_string(y0));
		g_counts["regions_compared"]++;
	}
}

static void tiffCase(Rng& r, const std::string& path)
{
	const int types[] = {0, 1, 2, 3, 4, 5, 6};
	const int bits[] = {8, 8, 16, 16, 32, 32, 32};
	const int fmts[] = {SAMPLEFORMAT_UINT, SAMPLEFORMAT_INT, SAMPLEFORMAT_UINT, SAMPLEFORMAT_INT, SAMPLEFORMAT_UINT, SAMPLEFORMAT_INT, SAMPLEFORMAT_IEEEFP};
	const EqChannelType ct[] = {Channel_Unsigned8, Channel_Signed8, Channel_Unsigned16, Channel_Signed16, Channel_Unsigned32, Channel_Signed32, Channel_Float32};
	const int comps[] = {COMPRESSION_NONE, COMPRESSION_LZW, COMPRESSION_PACKBITS, COMPRESSION_ADOBE_DEFLATE};
	int t = r.pick(types), nch = r.i(1, 6), w = r.i(1, 90), h = r.i(1, 90), bpp = nch*bits[t]/8, comp = r.pick(comps);
	bool tiled = r.i(0, 2) == 0;
	int tw = 16*r.i(1, 4), th = 16*r.i(1, 4);
	std::vector<TqUint8> px(size_t(w)*h*bpp);
	fillRandom(r, ct[t], &px[0], px.size());
	std::string what = "tiff " + std::to_string(bits[t]) + "bit format " + std::to_string(fmts[t]) + " x" + std::to_string(nch) + " compression " + std::to_string(comp) + (tiled ? " tiled" : " strips");
	bool big = r.i(0, 3) == 0;
	TIFF* f = TIFFOpen(path.c_str(), big ? "wb" : "wl");
	TIFFSetField(f, TIFFTAG_IMAGEWIDTH, w);
	TIFFSetField(f, TIFFTAG_IMAGELENGTH, h);
	TIFFSetField(f, TIFFTAG_SAMPLESPERPIXEL, nch);
	TIFFSetField(f, TIFFTAG_BITSPERSAMPLE, bits[t]);
	if(fmts[t] != SAMPLEFORMAT_UINT || r.i(0, 1)) TIFFSetField(f, TIFFTAG_SAMPLEFORMAT, fmts[t]);
	TIFFSetField(f, TIFFTAG_COMPRESSION, comp);
	TIFFSetField(f, TIFFTAG_PLANARCONFIG, PLANARCONFIG_CONTIG);
	TIFFSetField(f, TIFFTAG_PHOTOMETRIC, nch < 3 ? PHOTOMETRIC_MINISBLACK : PHOTOMETRIC_RGB);
	int extra = nch < 3 ? nch - 1 : nch - 3;
	if(extra)
	{
		uint16_t e[6];
		for(int i = 0; i < extra; ++i) e[i] = i == 0 ? EXTRASAMPLE_ASSOCALPHA : EXTRASAMPLE_UNSPECIFIED;
		TIFFSetField(f, TIFFTAG_EXTRASAMPLES, extra, e);
	}
	if(tiled)
	{
		TIFFSetField(f, TIFFTAG_TILEWIDTH, tw);
		TIFFSetField(f, TIFFTAG_TILELENGTH, th);
		for(int ty = 0; ty < h; ty += th)
			for(int tx = 0; tx < w; tx += tw)
			{
				std::vector<TqUint8> tile(size_t(tw)*th*bpp);
				for(int y = ty; y < std::min(h, ty + th); ++y)
					std::memcpy(&tile[size_t(y - ty)*tw*bpp], &px[(size_t(y)*w + tx)*bpp], size_t(std::min(tw, w - tx))*bpp);
				TIFFWriteTile(f, &tile[0], tx, ty, 0, 0);
			}
	}
	else
	{
		if(r.i(0, 3)) TIFFSetField(f, TIFFTAG_ROWSPERSTRIP, r.i(1, h));
		for(int y = 0; y < h; ++y)
		{
			std::vector<TqUint8> line(px.begin() + size_t(y)*w*bpp, px.begin() + size_t(y + 1)*w*bpp);
			TIFFWriteScanline(f, &line[0], y, 0);
		}
	}
	TIFFClose(f);
	boost::shared_ptr<IqTexInputFile> in = IqTexInputFile::open(path);
	readBack(r, *in, what, "foreign-tiff:", w, h, bpp, px);
	for(int c = 0; c < in->header().channelList().numChannels(); ++c)
		if(in->header().channelList()[c].type != ct[t])
			fail("foreign-tiff:type", what);
	g_counts["foreign_tiff"]++;
}

static void pngCase(Rng& r, const std::string& path)
{
	const int ctypes[] = {PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_PALETTE, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA, PNG_COLOR_TYPE_GRAY_ALPHA};
	int ct = r.pick(ctypes), w = r.i(1, 60), h = r.i(1, 60);
	const int d0[] = {1, 2, 4, 8, 16}, d1[] = {1, 2, 4, 8}, d2[] = {8, 16};
	int depth = ct == PNG_COLOR_TYPE_GRAY ? r.pick(d0) : ct == PNG_COLOR_TYPE_PALETTE ? r.pick(d1) : r.pick(d2);
	bool inter = r.i(0, 2) == 0;
	std::string what = "png colour type " + std::to_string(ct) + " depth " + std::to_string(depth) + (inter ? " interlaced" : "");
	const int chs = ct == PNG_COLOR_TYPE_RGB ? 3 : ct == PNG_COLOR_TYPE_RGB_ALPHA ? 4 : ct == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : 1;
	int npal = 1 << (depth > 8 ? 8 : depth);
	std::vector<png_color> pal(npal);
	for(int i = 0; i < npal; ++i) { pal[i].red = r.i(0, 255); pal[i].green = r.i(0, 255); pal[i].blue = r.i(0, 255); }
	// values, and the 8 bit premultiplied pixels they mean
	const int outc = ct == PNG_COLOR_TYPE_PALETTE ? 3 : chs;
	std::vector<TqUint8> want(size_t(w)*h*outc);
	std::vector<std::vector<TqUint8> > rows(h, std::vector<TqUint8>((size_t(w)*chs*depth + 7)/8));
	for(int y = 0; y < h; ++y)
		for(int x = 0; x < w; ++x)
		{
			int v[4], q[4];
			for(int c = 0; c < chs; ++c)
			{
				v[c] = r.i(0, (1 << depth) - 1);
				size_t bit = (size_t(x)*chs + c)*depth;
				if(depth == 16) { rows[y][bit/8] = v[c] >> 8; rows[y][bit/8 + 1] = v[c] & 255; q[c] = v[c] >> 8; }
				else { rows[y][bit/8] |= v[c] << (8 - depth - bit % 8); q[c] = v[c]*255/((1 << depth) - 1); }
			}
			TqUint8* o = &want[(size_t(y)*w + x)*outc];
			if(ct == PNG_COLOR_TYPE_PALETTE) { o[0] = pal[v[0]].red; o[1] = pal[v[0]].green; o[2] = pal[v[0]].blue; }
			else for(int c = 0; c < chs; ++c)
				o[c] = (chs == 2 || chs == 4) && c < chs - 1 ? q[c]*q[chs - 1]/255 : q[c];
		}
	FILE* f = std::fopen(path.c_str(), "wb");
	png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0);
	png_infop info = png_create_info_struct(p);
	png_init_io(p, f);
	png_set_IHDR(p, info, w, h, depth, ct, inter ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
	if(ct == PNG_COLOR_TYPE_PALETTE) png_set_PLTE(p, info, &pal[0], npal);
	png_write_info(p, info);
	std::vector<png_bytep> rp(h);
	for(int y = 0; y < h; ++y) rp[y] = &rows[y][0];
	png_write_image(p, &rp[0]);
	png_write_end(p, info);
	png_destroy_write_struct(&p, &info);
	std::fclose(f);
	boost::shared_ptr<IqTexInputFile> in = IqTexInputFile::open(path);
	readBack(r, *in, what, "foreign-png:", w, h, outc, want);
	g_counts["foreign_png"]++;
}

static void exrCase(Rng& r, const std::string& path)
{
	const Imf::PixelType types[] = {Imf::FLOAT, Imf::HALF, Imf::UINT};
	static const char* sets[][5] = {{"Y"}, {"R", "G", "B"}, {"R", "G", "B", "A"}, {"B", "zz", "R", "G"}, {"Z", "A", "B", "G", "R"}};
	const int ns[] = {1, 3, 4, 4, 5};
	int k = r.i(0, 4), w = r.i(1, 60), h = r.i(1, 60);
	Imath::V2i o(r.i(-20, 20), r.i(-20, 20));
	Imath::Box2i dw(o, o + Imath::V2i(w - 1, h - 1)), disp(Imath::V2i(r.i(-10, 10), r.i(-10, 10)), Imath::V2i(60, 50));
	Imf::Header hd(disp, dw);
	const Imf::Compression comps[] = {Imf::NO_COMPRESSION, Imf::RLE_COMPRESSION, Imf::ZIPS_COMPRESSION, Imf::ZIP_COMPRESSION, Imf::PIZ_COMPRESSION};
	hd.compression() = r.pick(comps);
	if(r.i(0, 1)) hd.lineOrder() = Imf::DECREASING_Y;
	Imf::FrameBuffer fb;
	bool mixed = r.i(0, 2) == 0;
	Imf::PixelType t0 = r.pick(types);
	std::vector<std::vector<float> > chan(ns[k], std::vector<float>(size_t(w)*h));
	std::vector<std::vector<half> > chanh(ns[k], std::vector<half>(size_t(w)*h));
	std::vector<std::vector<unsigned> > chanu(ns[k], std::vector<unsigned>(size_t(w)*h));
	std::map<std::string, std::pair<int, Imf::PixelType> > by;
	for(int c = 0; c < ns[k]; ++c)
	{
		Imf::PixelType t = mixed ? r.pick(types) : t0;
		hd.channels().insert(sets[k][c], Imf::Channel(t));
		std::string low = sets[k][c];
		for(size_t i = 0; i < low.size(); ++i) low[i] = std::tolower(low[i]);
		by[low] = std::make_pair(c, t);
		for(size_t i = 0; i < chan[c].size(); ++i)
		{
			chan[c][i] = float(r.d(-5, 5)); chanh[c][i] = half(float(r.d(-5, 5))); chanu[c][i] = unsigned(r.g());
		}
		char* base = t == Imf::FLOAT ? (char*)&chan[c][0] : t == Imf::HALF ? (char*)&chanh[c][0] : (char*)&chanu[c][0];
		int sz = t == Imf::HALF ? 2 : 4;
		fb.insert(sets[k][c], Imf::Slice(t, base - (ptrdiff_t(o.x) + ptrdiff_t(o.y)*w)*sz, sz, size_t(sz)*w));
	}
	{
		Imf::OutputFile out(path.c_str(), hd);
		out.setFrameBuffer(fb);
		out.writePixels(h);
	}
	boost::shared_ptr<IqTexInputFile> in = IqTexInputFile::open(path);
	const CqChannelList& cl = in->header().channelList();
	std::string what = "exr set " + std::to_string(k) + (mixed ? " mixed" : "");
	if(cl.numChannels() != ns[k]) { fail("foreign-exr:channels", what); return; }
	int bpp = cl.bytesPerPixel();
	std::vector<TqUint8> want(size_t(w)*h*bpp);
	for(int c = 0; c < cl.numChannels(); ++c)
	{
		if(!by.count(cl[c].name)) { fail("foreign-exr:channel-name", what); return; }
		int s = by[cl[c].name].first;
		Imf::PixelType t = by[cl[c].name].second;
		if(cl[c].type != (t == Imf::FLOAT ? Channel_Float32 : t == Imf::HALF ? Channel_Float16 : Channel_Unsigned32)) { fail("foreign-exr:type", what); return; }
		for(size_t i = 0; i < size_t(w)*h; ++i)
			std::memcpy(&want[i*bpp + cl.channelByteOffset(c)], t == Imf::FLOAT ? (void*)&chan[s][i] : t == Imf::HALF ? (void*)&chanh[s][i] : (void*)&chanu[s][i], t == Imf::HALF ? 2 : 4);
	}
	const SqImageRegion* dr = in->header().findPtr<Attr::DisplayWindow>();
	if(!dr || dr->width != disp.max.x - disp.min.x + 1 || dr->height != disp.max.y - disp.min.y + 1 || dr->topLeftX != disp.min.x - o.x || dr->topLeftY != disp.min.y - o.y)
		fail("foreign-exr:display-window", what);
	readBack(r, *in, what, "foreign-exr:", w, h, bpp, want);
	g_counts["foreign_exr"]++;
}

// a file written by aqsis, read with libtiff alone
static void independentRead(const std::string& path, const std::vector<Sub>& subs, EqChannelType t, int nch, const std::string& what)
{
	TIFF* f = TIFFOpen(path.c_str(), "r");
	if(!f) { fail("independent:open", what); return; }
	for(size_t k = 0; k < subs.size(); ++k)
	{
		const Sub& s = subs[k];
		if(!TIFFSetDirectory(f, k)) { fail("independent:subimages", what); break; }
		uint32_t w = 0, h = 0; uint16_t spp = 0, bps = 0, fmt = SAMPLEFORMAT_UINT;
		TIFFGetField(f, TIFFTAG_IMAGEWIDTH, &w); TIFFGetField(f, TIFFTAG_IMAGELENGTH, &h);
		TIFFGetFieldDefaulted(f, TIFFTAG_SAMPLESPERPIXEL, &spp); TIFFGetFieldDefaulted(f, TIFFTAG_BITSPERSAMPLE, &bps);
		TIFFGetFieldDefaulted(f, TIFFTAG_SAMPLEFORMAT, &fmt);
		int bpp = nch*bytesPerPixel(t);
		int wantFmt = t == Channel_Float32 ? SAMPLEFORMAT_IEEEFP : t == Channel_Signed8 || t == Channel_Signed16 || t == Channel_Signed32 ? SAMPLEFORMAT_INT : SAMPLEFORMAT_UINT;
		if(int(w) != s.w || int(h) != s.h || spp*bps != bpp*8 || spp != nch || fmt != wantFmt) { fail("independent:header", what); break; }
		std::vector<TqUint8> got(s.px.size());
		if(TIFFIsTiled(f))
		{
			uint32_t tw, th;
			TIFFGetField(f, TIFFTAG_TILEWIDTH, &tw); TIFFGetField(f, TIFFTAG_TILELENGTH, &th);
			std::vector<TqUint8> tile(TIFFTileSize(f));
			for(uint32_t ty = 0; ty < h; ty += th)
				for(uint32_t tx = 0; tx < w; tx += tw)
				{
					TIFFReadTile(f, &tile[0], tx, ty, 0, 0);
					for(uint32_t y = ty; y < std::min(h, ty + th); ++y)
						std::memcpy(&got[(size_t(y)*w + tx)*bpp], &tile[size_t(y - ty)*tw*bpp], size_t(std::min(tw, w - tx))*bpp);
				}
		}
		else
			for(uint32_t y = 0; y < h; ++y)
				TIFFReadScanline(f, &got[size_t(y)*w*bpp], y, 0);
		if(got != s.px) { fail("independent:pixels", what); break; }
		g_counts["independent_reads"]++;
	}
	TIFFClose(f);
}
