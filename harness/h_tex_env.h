// environment, shadow and occlusion maps
#include <aqsis/tex/filtering/ienvironmentsampler.h>
#include <aqsis/tex/filtering/ishadowsampler.h>
#include <aqsis/tex/filtering/iocclusionsampler.h>
#include <array>
typedef std::array<double, 3> V3;
static V3 operator+(const V3& a, const V3& b) { return V3{a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static V3 operator*(double k, const V3& a) { return V3{k*a[0], k*a[1], k*a[2]}; }
static double dot(const V3& a, const V3& b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }
static CqVector3D cq(const V3& a) { return CqVector3D(a[0], a[1], a[2]); }
static V3 randDir(Rng& r)
{
	for(;;)
	{
		V3 v = {r.d(-1, 1), r.d(-1, 1), r.d(-1, 1)};
		double l = dot(v, v);
		if(l > .01 && l < 1) return (1/std::sqrt(l))*v;
	}
}

// axes of the six faces: direction, right, down (RISpec, RiMakeCubeFaceEnvironment)
struct Face { const char* name; V3 d, right, down; int col, row; };
static const Face g_faces[] = {
	{"px", {1, 0, 0}, {0, 0, -1}, {0, -1, 0}, 0, 0}, {"nx", {-1, 0, 0}, {0, 0, 1}, {0, -1, 0}, 0, 1},
	{"py", {0, 1, 0}, {1, 0, 0}, {0, 0, 1}, 1, 0}, {"ny", {0, -1, 0}, {1, 0, 0}, {0, 0, -1}, 1, 1},
	{"pz", {0, 0, 1}, {1, 0, 0}, {0, -1, 0}, 2, 0}, {"nz", {0, 0, -1}, {-1, 0, 0}, {0, -1, 0}, 2, 1}};

static const Face* faceOf(const V3& R, double& margin)
{
	double best = -1, second = -1; const Face* f = 0;
	for(int i = 0; i < 6; ++i)
	{
		double v = dot(R, g_faces[i].d);
		if(v > best) { second = best; best = v; f = &g_faces[i]; }
		else second = std::max(second, v);
	}
	margin = best - second;
	return f;
}
static void cubeST(const Face& f, const V3& R, double cot, double* st)
{
	double z = dot(R, f.d);
	st[0] = (f.col + .5 + .5*cot*dot(R, f.right)/z)/3;
	st[1] = (f.row + .5 + .5*cot*dot(R, f.down)/z)/2;
}
static void latST(const V3& R, double* st)
{
	st[0] = .5 + std::atan2(R[1], R[0])/(2*M_PI);
	st[1] = std::acos(std::max(-1., std::min(1., R[2]/std::sqrt(dot(R, R)))))/M_PI;
}

static void envCase(Rng& r, const std::string& dir, int id)
{
	static const EqChannelType types[] = {Channel_Float32, Channel_Float32, Channel_Unsigned8, Channel_Unsigned16};
	EqChannelType t = r.pick(types);
	double mx = typeMax(t);
	bool cube = r.i(0, 1);
	int n = r.i(1, 4), fi = r.i(0, 2);
	SqFilterInfo filt(g_filters[fi], float(r.i(1, 4)), float(r.i(1, 4)));
	std::string out = dir + "/f" + std::to_string(id) + ".tif";
	Img m;
	double fov = r.i(0, 1) ? 90 : r.d(90, 110), cot = 1/std::tan(fov*M_PI/360);
	bool noise = r.i(0, 1);
	std::vector<V3> g(n);
	for(int c = 0; c < n; ++c) g[c] = r.d(.1, .5)*randDir(r);
	if(cube)
	{
		int w = r.i(4, 60), h = r.i(0, 2) ? w : r.i(4, 60);
		m = Img(3*w, 2*h, n);
		std::string names[6];
		for(int k = 0; k < 6; ++k)
		{
			Img f(w, h, n);
			for(int y = 0; y < h; ++y)
				for(int x = 0; x < w; ++x)
				{
					V3 R = g_faces[k].d + ((2*(x + .5)/w - 1)/cot)*g_faces[k].right + ((2*(y + .5)/h - 1)/cot)*g_faces[k].down;
					R = (1/std::sqrt(dot(R, R)))*R;
					for(int c = 0; c < n; ++c)
					{
						double v = noise ? r.d() : .5 + dot(g[c], R);
						v = mx ? std::floor(v*mx) : float(v);
						f.at(x, y, c) = v;
						m.at(g_faces[k].col*w + x, g_faces[k].row*h + y, c) = v;
					}
				}
			names[k] = dir + "/c" + std::to_string(id) + g_faces[k].name + ".tif";
			writeImg(f, t, names[k]);
		}
		makeCubeFaceEnvironment(names[0], names[1], names[2], names[3], names[4], names[5], out, fov, filt, CqRiParamList(Ri::ParamList()));
		for(int k = 0; k < 6; ++k) boost::filesystem::remove(names[k]);
	}
	else
	{
		int w = r.i(4, 150), h = r.i(4, 80);
		m = Img(w, h, n);
		for(int y = 0; y < h; ++y)
			for(int x = 0; x < w; ++x)
			{
				double ph = 2*M_PI*((x + .5)/w - .5), th = M_PI*(y + .5)/h;
				V3 R = {std::sin(th)*std::cos(ph), std::sin(th)*std::sin(ph), std::cos(th)};
				for(int c = 0; c < n; ++c)
				{
					double v = noise ? r.d() : .5 + dot(g[c], R);
					m.at(x, y, c) = mx ? std::floor(v*mx) : float(v);
				}
			}
		std::string in = dir + "/s" + std::to_string(id) + ".tif";
		writeImg(m, t, in);
		makeLatLongEnvironment(in, out, filt, CqRiParamList(Ri::ParamList()));
		boost::filesystem::remove(in);
	}
	std::ostringstream wh;
	wh << (cube ? "cube" : "latlong") << " " << typeName(t) << "x" << n << " " << m.w << "x" << m.h << " fov " << fov;
	std::string what = wh.str(), kind = cube ? "cube" : "latlong";
	std::vector<Img> lev = readLevels(out, t, n);
	if(lev.empty() || lev[0].v != m.v || lev[0].w != m.w) { fail("env:level0:" + kind, what); return; }
	for(size_t k = 0; k + 1 < lev.size(); ++k)
		checkDownsample(lev[k], lev[k + 1], g_filters[fi], filt.xWidth, filt.yWidth, cube ? WrapMode_Clamp : WrapMode_Periodic, WrapMode_Clamp, t, what + " level " + std::to_string(k + 1));
	g_counts["environments_" + kind]++;
	boost::shared_ptr<IqTextureCache> cache = IqTextureCache::create(searchPath);
	IqEnvironmentSampler& samp = cache->findEnvironmentSampler(out.c_str());
	Img u = m;
	if(mx) for(size_t i = 0; i < u.v.size(); ++i) u.v[i] /= mx;
	for(int k = 0; k < 80; ++k)
	{
		V3 R = r.d(.2, 5)*randDir(r);
		bool axis = r.i(0, 9) == 0;
		if(axis)
		{
			R = r.d(.2, 5)*V3{0, 0, 1};
			if(r.i(0, 1)) R[2] = -R[2];
			if(r.i(0, 1)) std::swap(R[2], R[r.i(0, 1)]);
		}
		// a float direction, exactly
		for(int d = 0; d < 3; ++d) R[d] = float(R[d]);
		double len = std::sqrt(dot(R, R));
		double sz = r.d(0, 1.2)*2/m.w*len;
		V3 a = sz*randDir(r), b = sz*randDir(r);
		Query q;
		q.sblur = q.tblur = 0; q.sw = q.tw = 1; q.trunc = std::exp(-4.); q.minw = 2;
		if(r.i(0, 3) == 0) { q.sw = r.d(0, 2); q.tw = r.d(0, 2); }
		q.start = 0; q.num = n; q.fill = 0; q.lerp = Lerp_Auto;
		q.ws = cube ? WrapMode_Clamp : WrapMode_Periodic; q.wt = WrapMode_Clamp;
		double margin = 1, st[2];
		const Face* f = faceOf(R, margin);
		if(cube) cubeST(*f, R, cot, st); else latST(R, st);
		q.c[0] = st[0]; q.c[1] = st[1];
		double* side[2] = {q.s1, q.s2};
		for(int s = 0; s < 2; ++s)
		{
			double e = 1e-6, p[2], mm[2];
			V3 v = s ? b : a;
			if(cube) { cubeST(*f, R + e*v, cot, p); cubeST(*f, R + -e*v, cot, mm); }
			else { latST(R + e*v, p); latST(R + -e*v, mm); }
			for(int d = 0; d < 2; ++d) side[s][d] = (p[d] - mm[d])/(2*e);
			if(!cube && std::fabs(side[s][0]*2*e) > .4) side[s][0] = 1e9;
		}
		std::vector<float> o(n + 2, -777.f);
		CqTextureSampleOptions opts = samp.defaultSampleOptions();
		opts.setSWidth(q.sw); opts.setTWidth(q.tw); opts.setNumChannels(n); opts.setStartChannel(0);
		Sq3DSamplePllgram pl(cq(R), cq(a), cq(b));
		if(r.i(0, 1))
			samp.sample(pl, opts, &o[1]);
		else
			samp.sample(Sq3DSampleQuad(pl.c - .5*pl.s1 + .5*pl.s2, pl.c + .5*pl.s1 + .5*pl.s2, pl.c - .5*pl.s1 - .5*pl.s2, pl.c + .5*pl.s1 - .5*pl.s2), opts, &o[1]);
		g_counts["env_samples"]++;
		for(int c = 0; c < n; ++c)
			if(!(o[1 + c] >= -1e-4 && o[1 + c] <= 1 + 1e-4))
			{
				std::ostringstream s; s << what << " direction " << R[0] << "," << R[1] << "," << R[2] << " gives " << o[1 + c];
				fail("env:bounds:" + kind, s.str());
				return;
			}
		// on an edge between faces either may be used; at the poles the tangent map is singular
		double rxy = std::sqrt(R[0]*R[0] + R[1]*R[1])/len;
		if(cube ? margin < 1e-4*len : (rxy < 1e-3 || (rxy > 0 && R[0] < 0 && std::fabs(R[1]) < 1e-5*len))) continue;
		Gauss ga(q, m.w, m.h);
		if(!(std::log2(ga.minor/q.minw) < .8) || ga.major > 18*ga.minor || ga.major > 1e3) continue;
		std::vector<double> ref, range;
		if(!ewaReference(u, q, ref, range)) continue;
		for(int c = 0; c < n; ++c)
		{
			double tol = .015*range[c] + 2e-4;
			if(!(std::fabs(o[1 + c] - ref[c]) <= tol))
			{
				std::ostringstream s; s << what << " direction " << R[0] << "," << R[1] << "," << R[2] << " " << q.str() << " is " << o[1 + c] << " wanted " << ref[c] << " +- " << tol;
				fail("env:value:" + kind, s.str());
				return;
			}
			g_counts["env_values_" + kind]++;
			// the environment itself, well inside a face
			if(!noise && (!cube || margin > 6*len/m.h + .1*len) && sz < .02*len && m.w > 60 && m.h > 30)
			{
				double want = .5 + dot(g[c], R)/len;
				if(!(std::fabs(o[1 + c] - want) <= .03)) { fail("env:direction:" + kind, what); return; }
				g_counts["env_directions_" + kind]++;
			}
		}
	}
}

struct Mat
{
	double m[4][4];
	V3 operator*(const V3& p) const
	{
		double o[4];
		for(int j = 0; j < 4; ++j) o[j] = p[0]*m[0][j] + p[1]*m[1][j] + p[2]*m[2][j] + m[3][j];
		return V3{o[0]/o[3], o[1]/o[3], o[2]/o[3]};
	}
	CqMatrix cqm() const
	{
		float f[16];
		for(int i = 0; i < 16; ++i) f[i] = float(m[i/4][i%4]);
		return CqMatrix(f);
	}
};
static Mat mul(const Mat& a, const Mat& b) // a first
{
	Mat r;
	for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) { r.m[i][j] = 0; for(int k = 0; k < 4; ++k) r.m[i][j] += a.m[i][k]*b.m[k][j]; }
	return r;
}
static Mat rigid(Rng& r, bool move)
{
	V3 z = randDir(r), x;
	do { x = randDir(r); } while(std::fabs(dot(x, z)) > .9);
	x = x + (-dot(x, z))*z; x = (1/std::sqrt(dot(x, x)))*x;
	V3 y = {z[1]*x[2] - z[2]*x[1], z[2]*x[0] - z[0]*x[2], z[0]*x[1] - z[1]*x[0]};
	Mat m;
	for(int i = 0; i < 3; ++i) { m.m[i][0] = x[i]; m.m[i][1] = y[i]; m.m[i][2] = z[i]; m.m[i][3] = 0; }
	for(int j = 0; j < 3; ++j) m.m[3][j] = move ? r.d(-3, 3) : 0;
	m.m[3][3] = 1;
	return m;
}
static Mat inverseRigid(const Mat& a)
{
	Mat r;
	for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) r.m[i][j] = i == 3 && j == 3;
	for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) r.m[i][j] = a.m[j][i];
	for(int j = 0; j < 3; ++j) r.m[3][j] = -(a.m[3][0]*r.m[0][j] + a.m[3][1]*r.m[1][j] + a.m[3][2]*r.m[2][j]);
	return r;
}

struct View { Mat toCam, toScreen; Img z; };

// the fraction of the filter under which the map is nearer the light
static bool pcfReference(const View& v, const Mat& c2w, const V3 (&quad)[4], double sw, double tw, double sblur, double tblur, double b0, double b1, bool linear, double& out)
{
	Mat cam = mul(c2w, v.toCam), scr = mul(c2w, v.toScreen);
	int w = v.z.w, h = v.z.h;
	double x[4], y[4], z[4], cx = 0, cy = 0, cz = 0;
	for(int i = 0; i < 4; ++i)
	{
		V3 p = scr*quad[i];
		x[i] = (p[0] + 1)/2; y[i] = (1 - p[1])/2; z[i] = (cam*quad[i])[2];
		cx += x[i]/4; cy += y[i]/4; cz += z[i]/4;
	}
	for(int i = 0; i < 4; ++i) { x[i] = cx + sw*(x[i] - cx); y[i] = cy + tw*(y[i] - cy); }
	Query q;
	q.c[0] = cx; q.c[1] = cy;
	q.s1[0] = .5*(x[1] - x[0] + x[3] - x[2]); q.s1[1] = .5*(y[1] - y[0] + y[3] - y[2]);
	q.s2[0] = .5*(x[0] - x[2] + x[1] - x[3]); q.s2[1] = .5*(y[0] - y[2] + y[1] - y[3]);
	q.sblur = sblur; q.tblur = tblur; q.sw = q.tw = 1; q.trunc = std::exp(-2.);
	Gauss g(q, w, h);
	if(!(g.major < 18*g.minor) || g.major > 200) return false;
	double rx = std::sqrt(2*g.cxx*g.edge), ry = std::sqrt(2*g.cyy*g.edge), tot = 0;
	out = 0;
	bool any = false;
	// the plane through the middle of the quad spanned by its diagonals
	double ax = x[3] - x[0], ay = y[3] - y[0], az = z[3] - z[0], bx = x[2] - x[1], by = y[2] - y[1], bz = z[2] - z[1];
	double nx = ay*bz - az*by, ny = az*bx - ax*bz, nz = ax*by - ay*bx;
	for(int py = int(std::floor(g.y0 - ry)) - 1; py <= g.y0 + ry + 1; ++py)
		for(int px = int(std::floor(g.x0 - rx)) - 1; px <= g.x0 + rx + 1; ++px)
		{
			double e = g.q(px, py);
			if(std::fabs(e - g.edge) < 2e-3*g.edge) return false;
			if(e >= g.edge || px < 0 || py < 0 || px >= w || py >= h) continue;
			any = true;
			double d = cz;
			if(linear)
			{
				// a quad seen edge on (or long and thin on the map) has no usable slope in single precision
				if(std::fabs(nz) < .01*std::sqrt((ax*ax + ay*ay)*(bx*bx + by*by)) || std::fabs(nz)*300 < std::fabs(nx) + std::fabs(ny)) return false;
				double dx = (px + .5)/w - cx, dy = (py + .5)/h - cy;
				d = cz - (nx*dx + ny*dy)/nz;
			}
			double s = v.z.at(px, py, 0), wt = std::exp(-e), f;
			if(b0 == b1)
			{
				if(std::fabs(d - s - b0) < 2e-3) return false;
				f = d > s + b0;
			}
			else
				f = std::max(0., std::min(1., (d - s - b0)/(b1 - b0)));
			out += wt*f; tot += wt;
		}
	if(any) out /= tot; else out = 0;
	return true;
}

static void shadowCase(Rng& r, const std::string& dir, int id)
{
	bool occ = r.i(0, 3) == 0;
	int nv = r.i(0, 1) || !occ ? 1 : r.i(2, 4);
	if(occ) nv = r.i(1, 6);
	bool multi = !occ && r.i(0, 2) == 0;
	if(multi) nv = r.i(2, 4);
	bool uniform = r.i(0, 2) == 0;
	std::vector<View> views(nv);
	std::string out = dir + "/f" + std::to_string(id) + ".tif";
	std::vector<boostfs::path> ins;
	for(int k = 0; k < nv; ++k)
	{
		View& v = views[k];
		v.toCam = rigid(r, true);
		bool persp = r.i(0, 1) && !occ;
		double s = persp ? r.d(.8, 2) : r.d(.1, .4), asp = r.d(.8, 1.25);
		Mat p;
		std::memset(p.m, 0, sizeof(p.m));
		p.m[0][0] = s; p.m[1][1] = s*asp;
		if(persp) { p.m[2][2] = 1; p.m[2][3] = 1; p.m[3][2] = -.1; }
		else { p.m[2][2] = .1; p.m[3][3] = 1; }
		v.toScreen = mul(v.toCam, p);
		v.z = Img(r.i(2, 90), r.i(2, 90), 1);
		double base = r.d(1, 6);
		for(int y = 0; y < v.z.h; ++y)
			for(int x = 0; x < v.z.w; ++x)
				v.z.at(x, y, 0) = float(uniform ? base : r.i(0, 3) ? base + .5*std::sin(x*.3) : (r.i(0, 1) ? 1e30 : r.d(0, 8)));
		CqTexFileHeader hdr;
		hdr.set<Attr::WorldToCameraMatrix>(v.toCam.cqm());
		hdr.set<Attr::WorldToScreenMatrix>(v.toScreen.cqm());
		std::string in = dir + "/s" + std::to_string(id) + "_" + std::to_string(k) + ".tif";
		writeImg(v.z, Channel_Float32, in, hdr);
		ins.push_back(in);
	}
	if(occ || multi) makeOcclusion(ins, out, CqRiParamList(Ri::ParamList()));
	else makeShadow(ins[0], out, CqRiParamList(Ri::ParamList()));
	for(int k = 0; k < nv; ++k) boost::filesystem::remove(ins[k]);
	std::vector<Img> lev = readLevels(out, Channel_Float32, 1);
	if(int(lev.size()) != nv) { fail("shadow:views", "number of images"); return; }
	for(int k = 0; k < nv; ++k) if(lev[k].v != views[k].z.v) { fail("shadow:depths", "depths changed"); return; }
	boost::shared_ptr<IqTextureCache> cache = IqTextureCache::create(searchPath);
	Mat c2w = rigid(r, true), w2c = inverseRigid(c2w);
	cache->setCurrToWorldMatrix(c2w.cqm());
	g_counts[occ ? "occlusion_maps" : "shadow_maps"]++;
	std::string kind = occ ? "occlusion" : multi ? "multi" : "single";
	for(int k = 0; k < 60; ++k)
	{
		// a point somewhere in front of a view
		View& v = views[r.i(0, nv - 1)];
		V3 pc = inverseRigid(v.toCam)*V3{r.d(-2, 2), r.d(-2, 2), r.d(.5, 8)};
		V3 c = w2c*pc;
		double sz = r.d(.01, .3);
		V3 a = sz*randDir(r), b = sz*randDir(r);
		V3 quad[4] = {c + -.5*a + .5*b, c + .5*a + .5*b, c + -.5*a + -.5*b, c + .5*a + -.5*b};
		for(int i = 0; i < 4; ++i) for(int d = 0; d < 3; ++d) quad[i][d] = float(quad[i][d]);
		double b0 = r.i(0, 1) ? 0 : r.d(0, .5), b1 = r.i(0, 1) ? b0 : b0 + r.d(.1, 1);
		double sb = r.i(0, 1) ? 0 : r.d(0, .1), tb = r.i(0, 1) ? 0 : r.d(0, .1), sw = r.i(0, 1) ? 1 : r.d(0, 2), tw = r.i(0, 1) ? 1 : r.d(0, 2);
		bool linear = r.i(0, 1);
		float o[3] = {-777, -777, -777};
		int stoch = r.i(0, 3) == 0 ? r.i(24, 64) : -1;
		if(occ)
		{
			IqOcclusionSampler& s = cache->findOcclusionSampler(out.c_str());
			CqShadowSampleOptions op = s.defaultSampleOptions();
			op.setBiasLow(b0); op.setBiasHigh(b1); op.setSBlur(sb); op.setTBlur(tb); op.setNumSamples(r.i(1, 64)); op.setNumChannels(1);
			V3 nrm = randDir(r);
			s.sample(Sq3DSamplePllgram(cq(c), cq(a), cq(b)), cq(nrm), op, &o[1]);
			g_counts["occlusion_samples"]++;
			if(!(o[1] >= 0 && o[1] <= 1.0001f)) { fail("occlusion:bounds", std::to_string(o[1])); return; }
			// wholly in front of or behind every map which counts
			int front = 0, behind = 0, other = 0;
			for(int q = 0; q < nv; ++q)
			{
				Mat cam = mul(c2w, views[q].toCam), scr = mul(c2w, views[q].toScreen);
				V3 dirc = {cam.m[0][2], cam.m[1][2], cam.m[2][2]};
				double wt = -dot(nrm, dirc);
				if(wt < -1e-4) continue;
				if(wt < .05) { ++other; continue; }
				V3 p = scr*c;
				double x = (p[0] + 1)/2*views[q].z.w, y = (1 - p[1])/2*views[q].z.h;
				double dz = (cam*c)[2], base = views[q].z.at(0, 0, 0);
				if(!uniform || x < 1 || y < 1 || x > views[q].z.w - 1 || y > views[q].z.h - 1) { ++other; continue; }
				if(dz < base + b0 - .01) ++front; else if(dz > base + b1 + .01) ++behind; else ++other;
			}
			if(!other && front && !behind && o[1] != 0) { fail("occlusion:lit", "a point in front of every map is occluded by " + std::to_string(o[1])); return; }
			if(!other && behind && !front && !(o[1] > .999f)) { fail("occlusion:dark", "a point behind every map is occluded by " + std::to_string(o[1])); return; }
			if(!other && (front || behind) && !(front && behind)) g_counts["occlusion_decided"]++;
			continue;
		}
		IqShadowSampler& s = cache->findShadowSampler(out.c_str());
		CqShadowSampleOptions op = s.defaultSampleOptions();
		op.setBiasLow(b0); op.setBiasHigh(b1); op.setSBlur(sb); op.setTBlur(tb); op.setSWidth(sw); op.setTWidth(tw); op.setNumSamples(stoch);
		op.setDepthApprox(linear ? DApprox_Linear : DApprox_Constant); op.setNumChannels(1);
		s.sample(Sq3DSampleQuad(cq(quad[0]), cq(quad[1]), cq(quad[2]), cq(quad[3])), op, &o[1]);
		g_counts["shadow_samples"]++;
		if(o[0] != -777 || o[2] != -777) fail("shadow:overrun", kind);
		if(!(o[1] >= -1e-6 && o[1] <= 1 + 1e-5)) { fail("shadow:bounds", std::to_string(o[1])); return; }
		// the view which sees the point from furthest along its axis
		int pick = 0; double best = -1e300, second = -1e300;
		for(int q = 0; q < nv; ++q)
		{
			double d = (mul(c2w, views[q].toCam)*c)[2];
			if(d > best) { second = best; best = d; pick = q; } else second = std::max(second, d);
		}
		if(nv > 1 && (best - second < 1e-3 || best < 1e-3)) continue;
		View& pv = views[pick];
		bool ok = true;
		for(int i = 0; i < 4; ++i) if((mul(c2w, pv.toCam)*quad[i])[2] < .3) ok = false;
		double ref;
		if(!ok || !pcfReference(pv, c2w, quad, sw, tw, sb, tb, b0, b1, linear, ref)) continue;
		double tol = ref < 1e-9 || ref > 1 - 1e-9 ? 1e-4 : .02;
		if(stoch > 0 && tol > 1e-3) continue;
		if(!(std::fabs(o[1] - ref) <= tol))
		{
			std::ostringstream e; e << kind << " " << pv.z.w << "x" << pv.z.h << " is " << o[1] << " wanted " << ref << " bias " << b0 << "," << b1 << " blur " << sb << "," << tb << " width " << sw << "," << tw << (linear ? " linear" : " constant") << " samples " << stoch;
			fail("shadow:value:" + kind, e.str());
			return;
		}
		g_counts["shadow_values_" + kind]++;
		if(ref > 0 && ref < 1) g_counts["shadow_partial"]++;
	}
}
