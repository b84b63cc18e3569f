// Monitors the mathematics library against double precision references.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <limits>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <aqsis/aqsis.h>
#include <aqsis/math/math.h>
#include <aqsis/math/vector2d.h>
#include <aqsis/math/vector3d.h>
#include <aqsis/math/vector4d.h>
#include <aqsis/math/vectorcast.h>
#include <aqsis/math/color.h>
#include <aqsis/math/matrix.h>
#include <aqsis/math/matrix2d.h>
#include <aqsis/math/spline.h>
#include <aqsis/math/noise.h>
#include <aqsis/math/cellnoise.h>
#include <aqsis/math/random.h>
#include <aqsis/math/lowdiscrep.h>
#include <aqsis/util/bitvector.h>
#include <aqsis/util/sstring.h>

using namespace Aqsis;

struct Rng
{
	std::mt19937_64 g;
	Rng(unsigned long s): g(s) {}
	int i(int a, int b) { return a + int(g() % (unsigned long)(b - a + 1)); }
	double u() { return (g() >> 11)*(1./9007199254740992.); }
	double f(double a, double b) { return a + (b - a)*u(); }
};
static std::map<std::string, long> g_counts;
static bool g_failed;
static void fail(const std::string& key, const std::string& msg)
{
	if(!g_failed) std::cout << "FAIL " << key << " " << msg << std::endl;
	g_failed = true;
}
template<class A> static std::string str(const A& a) { std::ostringstream s; s.precision(9); s << a; return s.str(); }
template<class A, class B> static std::string str(const A& a, const B& b) { return str(a) + " wanted " + str(b); }

static void near(const std::string& key, double got, double want, double tol, const std::string& what = "")
{
	g_counts[key]++;
	if(!(std::fabs(got - want) <= tol)) fail(key, what + " is " + str(got, want) + " +- " + str(tol));
}

//------------------------------------------------------------------ matrices
struct M	// column convention, double precision
{
	double e[4][4];
	M() { for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) e[i][j] = i == j; }
	M(const CqMatrix& m) { for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) e[i][j] = m.Element(j, i); }
	M operator*(const M& o) const
	{
		M r;
		for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) { r.e[i][j] = 0; for(int k = 0; k < 4; ++k) r.e[i][j] += e[i][k]*o.e[k][j]; }
		return r;
	}
	double size() const { double s = 0; for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) s = std::max(s, std::fabs(e[i][j])); return s; }
	double det() const
	{
		double a[4][4], d = 1;
		for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) a[i][j] = e[i][j];
		for(int c = 0; c < 4; ++c)
		{
			int p = c;
			for(int i = c; i < 4; ++i) if(std::fabs(a[i][c]) > std::fabs(a[p][c])) p = i;
			if(a[p][c] == 0) return 0;
			if(p != c) { d = -d; for(int j = 0; j < 4; ++j) std::swap(a[p][j], a[c][j]); }
			d *= a[c][c];
			for(int i = c + 1; i < 4; ++i) { double q = a[i][c]/a[c][c]; for(int j = c; j < 4; ++j) a[i][j] -= q*a[c][j]; }
		}
		return d;
	}
};
static CqVector3D vec(Rng& r, double s) { return CqVector3D(r.f(-s, s), r.f(-s, s), r.f(-s, s)); }
static CqVector3D axisVec(Rng& r)
{
	for(;;)
	{
		CqVector3D v = r.i(0, 3) ? vec(r, 2) : CqVector3D(r.i(-1, 1), r.i(-1, 1), r.i(-1, 1));
		if(v.Magnitude() > .05) return v;
	}
}
static void same(const std::string& key, const CqMatrix& got, const M& want, double tol, const std::string& what)
{
	M g(got);
	g_counts["matrices"]++;
	for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j)
		if(!(std::fabs(g.e[i][j] - want.e[i][j]) <= tol))
		{
			fail(key, what + " element " + str(j) + "," + str(i) + " is " + str(g.e[i][j], want.e[i][j]));
			return;
		}
	if(got.fIdentity())
		for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) if(std::fabs(want.e[i][j] - (i == j)) > tol) { fail(key, what + " is marked as the identity"); return; }
}
static M rotation(double a, const CqVector3D& v)
{
	double l = std::sqrt(double(v.x())*v.x() + double(v.y())*v.y() + double(v.z())*v.z()), x = v.x()/l, y = v.y()/l, z = v.z()/l, c = std::cos(a), s = std::sin(a), t = 1 - c;
	M m;
	double R[3][3] = {{t*x*x + c, t*x*y - s*z, t*x*z + s*y}, {t*x*y + s*z, t*y*y + c, t*y*z - s*x}, {t*x*z - s*y, t*y*z + s*x, t*z*z + c}};
	for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) m.e[i][j] = R[i][j];
	return m;
}
static CqMatrix randomMatrix(Rng& r)
{
	float e[16];
	for(int i = 0; i < 16; ++i) e[i] = r.i(0, 4) ? r.f(-2, 2) : r.i(-1, 1);
	int k = r.i(0, 5);
	if(k == 0) return CqMatrix();
	if(k == 1) { float q[4][4]; for(int i = 0; i < 16; ++i) q[i/4][i%4] = e[i]; return CqMatrix(q); }
	if(k == 2) return CqMatrix(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15]);
	if(k == 3) { CqMatrix m(e[0] + 3, e[1] + 3, e[2] + 3); m.Rotate(e[3], axisVec(r)); m.Translate(vec(r, 3)); return m; }
	return CqMatrix(e);
}
static void matrixCase(Rng& r)
{
	CqMatrix m = randomMatrix(r);
	M ref(m);
	std::string hist = "from " + str(m);
	double tol = 1e-6;
	int n = r.i(1, 8);
	for(int s = 0; s < n && !g_failed; ++s)
	{
		M o;
		int k = r.i(0, 23);
		hist += "; op " + str(k);
		if(ref.size() > 1e4) break;
		tol = 2e-6*(1 + s)*(1 + ref.size())*8;
		switch(k)
		{
			case 0: { float f = r.f(-3, 3); if(f == 0) f = 1; m.Scale(f); for(int i = 0; i < 3; ++i) o.e[i][i] = f; ref = o*ref; break; }
			case 1: { float f[3] = {float(r.i(-2, 3)), float(r.f(-3, 3)), float(r.f(.1, 3))}; m.Scale(f[0], f[1], f[2]); for(int i = 0; i < 3; ++i) o.e[i][i] = f[i]; ref = o*ref; break; }
			case 2: { float a = r.i(0, 5) ? r.f(-7, 7) : 0; CqVector3D v = axisVec(r); m.Rotate(a, v); ref = rotation(a, v)*ref; break; }
			case 3: { CqVector3D v = vec(r, 3); if(r.i(0, 3) == 0) v = CqVector3D(r.i(-1, 1), r.i(-1, 1), r.i(-1, 1)); if(r.i(0, 1)) m.Translate(v); else m.Translate(v.x(), v.y(), v.z()); for(int i = 0; i < 3; ++i) o.e[i][3] = v[i]; ref = o*ref; break; }
			case 4: { float a = r.f(-2, 2), b = r.i(0, 1) ? r.f(-2, 2) : 0; m.ShearX(a, b); o.e[1][0] = a; o.e[2][0] = b; ref = o*ref; break; }
			case 5: { float a = r.f(-2, 2), b = r.i(0, 1) ? r.f(-2, 2) : 0; m.ShearY(a, b); o.e[0][1] = a; o.e[2][1] = b; ref = o*ref; break; }
			case 6: { float a = r.f(-2, 2), b = r.i(0, 1) ? r.f(-2, 2) : 0; m.ShearZ(a, b); o.e[0][2] = a; o.e[1][2] = b; ref = o*ref; break; }
			case 7: { CqMatrix q = randomMatrix(r); m *= q; ref = ref*M(q); break; }
			case 8: { CqMatrix q = randomMatrix(r); m.PreMultiply(q); ref = M(q)*ref; break; }
			case 9: { CqMatrix q = randomMatrix(r); CqMatrix p = m*q; m = p; ref = ref*M(q); break; }
			case 10: { CqMatrix q = randomMatrix(r); m += q; M t(q); for(int i = 0; i < 16; ++i) ref.e[i/4][i%4] += t.e[i/4][i%4]; break; }
			case 11: { CqMatrix q = randomMatrix(r); m = m - q; M t(q); for(int i = 0; i < 16; ++i) ref.e[i/4][i%4] -= t.e[i/4][i%4]; break; }
			case 12: { CqMatrix q = m.Transpose(); m = q; M t; for(int i = 0; i < 16; ++i) t.e[i/4][i%4] = ref.e[i%4][i/4]; ref = t; break; }
			case 13: m.Identity(); ref = M(); break;
			case 14: { int i = r.i(0, 3), j = r.i(0, 3); float f = r.f(-2, 2); m.SetfIdentity(false); m.SetElement(i, j, f); ref.e[j][i] = f; break; }
			case 15: { float f = r.f(-2, 2); m = f*m; for(int i = 0; i < 16; ++i) ref.e[i/4][i%4] *= f; break; }
			case 16: { CqMatrix q(m); m = q; CqMatrix c; c = m; m = c; break; }
			case 17: { float a = r.f(-3, 3); CqVector3D v = axisVec(r); CqMatrix q(a, v); m = q*m; ref = rotation(a, v)*ref; break; }
			case 18: { CqVector3D v = vec(r, 3); CqMatrix q(v); m = q*m; for(int i = 0; i < 3; ++i) o.e[i][3] = v[i]; ref = o*ref; break; }
			case 19: { float f = r.f(-2, 2); CqMatrix q(f); m = q*m; for(int i = 0; i < 4; ++i) o.e[i][i] = f; ref = o*ref; break; }
			case 20: m *= m; ref = ref*ref; break;
			case 21: m.PreMultiply(m); ref = ref*ref; break;
			case 22:
			{
				CqVector3D d1 = axisVec(r), d2 = axisVec(r);
				double l1 = d1.Magnitude(), l2 = d2.Magnitude(), cs = (d1*d2)/l1/l2;
				if(std::fabs(cs) > .9) break;
				double ax = std::acos(cs), an = r.f(ax - M_PI + .35, ax - .35);
				if(an <= ax - M_PI + .3 || an >= ax - .3) break;
				// the skew moves d1 in the plane of d1 and d2 by the angle towards d2, leaving what is along d2 and across the plane
				CqMatrix q(float(an), d1.x(), d1.y(), d1.z(), d2.x(), d2.y(), d2.z());
				CqVector3D w = q*d1;
				double wl = w.Magnitude();
				double ang = std::acos(std::max(-1., std::min(1., double(w*d1)/wl/l1)));
				near("skew:angle", ang, std::fabs(an), 3e-3, "angle of skew by " + str(an) + " from " + str(d1) + " to " + str(d2));
				CqVector3D z = d1 % d2; z.Unit();
				CqVector3D qz = q*z, q2 = q*d2;
				near("skew:across", (qz - z).Magnitude(), 0, 1e-4);
				near("skew:along", (q2 - d2).Magnitude(), 0, 1e-4*(1 + l2));
				near("skew:plane", w*z, 0, 1e-4*(1 + wl));
				CqVector3D back = q*CqVector3D(0, 0, 0);
				near("skew:origin", back.Magnitude(), 0, 1e-6);
				double toward = (w*d2)/wl/l2 - cs;
				if(std::fabs(an) > .05 && toward*an < 0) fail("skew:direction", "skewed the wrong way by " + str(an));
				break;
			}
			default:
			{
				float f[16]; const float* p = m.pElements();
				for(int i = 0; i < 16; ++i) f[i] = p[i];
				if(r.i(0, 1)) m = f; else { float q[4][4]; for(int i = 0; i < 16; ++i) q[i/4][i%4] = f[i]; m = q; }
				break;
			}
		}
		same("matrix:op" + str(k), m, ref, tol*(1 + ref.size()), hist);
		ref = M(m);
	}
	if(g_failed) return;
	double S = ref.size() + 1e-3;
	// what it does to vectors
	for(int q = 0; q < 4; ++q)
	{
		CqVector3D v = vec(r, 4);
		double w[4];
		for(int i = 0; i < 4; ++i) w[i] = ref.e[i][0]*v.x() + ref.e[i][1]*v.y() + ref.e[i][2]*v.z() + ref.e[i][3];
		CqVector4D v4(v.x(), v.y(), v.z(), 1), g4 = m*v4;
		for(int i = 0; i < 4; ++i) near("matrix:vector4", g4[i], w[i], 1e-5*S*16, hist);
		if(std::fabs(w[3]) > .05*S)
		{
			CqVector3D g3 = m*v;
			for(int i = 0; i < 3; ++i) near("matrix:vector3", g3[i], w[i]/w[3], 1e-5*(1 + std::fabs(w[i]/w[3]))*S*16/std::fabs(w[3]), hist);
		}
		CqVector4D p4 = m.PreMultiply(v4);
		for(int i = 0; i < 4; ++i) near("matrix:premultiplyvector", p4[i], ref.e[0][i]*v.x() + ref.e[1][i]*v.y() + ref.e[2][i]*v.z() + ref.e[3][i], 1e-5*S*16, hist);
	}
	double det = ref.det();
	near("matrix:determinant", m.Determinant(), det, 1e-4*S*S*S*S, hist);
	if(std::fabs(det) > 1e-3*S*S*S*S)
	{
		CqMatrix inv = m.Inverse();
		M i(inv);
		same("matrix:inverse", CqMatrix(), ref*i, 1e-2, hist + " inverse");
		same("matrix:inverse", CqMatrix(), i*ref, 1e-2, hist + " inverse");
		CqMatrix back = inv.Inverse();
		same("matrix:inverse", back, ref, 2e-2*S, hist + " inverse of inverse");
		g_counts["inverses"]++;
	}
	if(!(m == m) || (m != m)) fail("matrix:equal", hist);
	CqMatrix c(m);
	if(!(c == m)) fail("matrix:equal", hist);
	int i = r.i(0, 3), j = r.i(0, 3);
	c.SetfIdentity(false);
	{ float x = c[i][j]; c[i][j] = x > 0 ? 2*x + 1 : 1 - x; }
	if(c == m || !(c != m)) fail("matrix:notequal", hist);
	g_counts["matrix_histories"]++;
}

static void matrix2Case(Rng& r)
{
	SqMatrix2D A(r.f(-3, 3), r.f(-3, 3), r.f(-3, 3), r.f(-3, 3)), B(r.f(-3, 3), r.f(-3, 3), r.f(-3, 3), r.f(-3, 3));
	SqMatrix2D C = A*B;
	near("matrix2:product", C.a, double(A.a)*B.a + double(A.b)*B.c, 1e-5);
	near("matrix2:product", C.b, double(A.a)*B.b + double(A.b)*B.d, 1e-5);
	near("matrix2:product", C.c, double(A.c)*B.a + double(A.d)*B.c, 1e-5);
	near("matrix2:product", C.d, double(A.c)*B.b + double(A.d)*B.d, 1e-5);
	double det = double(A.a)*A.d - double(A.b)*A.c;
	near("matrix2:det", A.det(), det, 1e-5);
	if(std::fabs(det) > .05)
	{
		SqMatrix2D I = A*A.inv();
		near("matrix2:inverse", I.a, 1, 2e-4); near("matrix2:inverse", I.b, 0, 2e-4); near("matrix2:inverse", I.c, 0, 2e-4); near("matrix2:inverse", I.d, 1, 2e-4);
	}
	SqMatrix2D T = A.transpose(), D = A + B, E = 2.5f*A;
	if(T.a != A.a || T.b != A.c || T.c != A.b || T.d != A.d) fail("matrix2:transpose", str(A));
	near("matrix2:sum", D.c, A.c + B.c, 1e-6); near("matrix2:sum", D.b, A.b + B.b, 1e-6); near("matrix2:scale", E.d, 2.5*A.d, 1e-5); near("matrix2:scale", E.b, 2.5*A.b, 1e-5);
	// symmetric matrices of every size and shape
	double s = std::pow(10, r.f(-4, 6)), l1 = s, l2 = s*(r.i(0, 4) ? std::pow(10, r.f(-5, 0)) : 1), t = r.i(0, 3) ? r.f(-4, 4) : r.i(-3, 3)*M_PI/4, c = std::cos(t), q = std::sin(t);
	SqMatrix2D Y(l1*c*c + l2*q*q, (l1 - l2)*c*q, (l1 - l2)*c*q, l1*q*q + l2*c*c);
	float e1, e2;
	Y.eigenvalues(e1, e2);
	near("matrix2:eigenvalues", e1, l1, 1e-5*s, str(Y)); near("matrix2:eigenvalues", e2, l2, 1e-5*s, str(Y));
	SqMatrix2D R = Y.orthogDiagonalize(e1, e2), Z = R*SqMatrix2D(e1, e2)*R.transpose();
	near("matrix2:diagonal", Z.a, Y.a, 1e-3*s, str(Y)); near("matrix2:diagonal", Z.b, Y.b, 1e-3*s, str(Y)); near("matrix2:diagonal", Z.d, Y.d, 1e-3*s, str(Y));
	near("matrix2:rotation", R.det(), 1, 1e-4, str(Y));
}

//------------------------------------------------------------------- vectors
static void vectorCase(Rng& r)
{
	double a[3], b[3];
	for(int i = 0; i < 3; ++i) { a[i] = float(r.i(0, 3) ? r.f(-5, 5) : r.i(-1, 1)); b[i] = float(r.i(0, 3) ? r.f(-5, 5) : r.i(-1, 1)); }
	float f = r.f(.5, 4);
	if(r.i(0, 1)) f = -f;
	CqVector3D A(a[0], a[1], a[2]), B(b[0], b[1], b[2]);
	CqColor P(a[0], a[1], a[2]), Q(b[0], b[1], b[2]);
	CqVector2D U(a[0], a[1]), V(b[0], b[1]);
	double dot = a[0]*b[0] + a[1]*b[1] + a[2]*b[2];
	near("vector:dot", A*B, dot, 1e-5*30);
	near("vector:magnitude", A.Magnitude(), std::sqrt(a[0]*a[0] + a[1]*a[1] + a[2]*a[2]), 1e-5);
	near("vector:magnitude2", A.Magnitude2(), a[0]*a[0] + a[1]*a[1] + a[2]*a[2], 1e-4);
	CqVector3D X = A % B;
	double x[3] = {a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]};
	CqVector3D Xe = A; Xe %= B;
	for(int i = 0; i < 3; ++i) { near("vector:cross", X[i], x[i], 1e-4); near("vector:cross", Xe[i], x[i], 1e-4); }
	CqVector3D self = A; self %= self; near("vector:cross", self.Magnitude(), 0, 1e-4);
	if(A.Magnitude() > .01) { CqVector3D N = A; N.Unit(); for(int i = 0; i < 3; ++i) near("vector:unit", N[i], a[i]/std::sqrt(a[0]*a[0] + a[1]*a[1] + a[2]*a[2]), 1e-5); }
	float t = r.i(0, 2) ? r.f(-1, 2) : r.i(0, 1);
	CqVector3D L = lerp(t, A, B), mn = min(A, B), mx = max(A, B), lo = min(A, B), hi = max(A, B), C0 = vec(r, 6), cl = clamp(C0, lo, hi);
	CqColor LC = lerp(t, P, Q), mnC = min(P, Q), mxC = max(P, Q), clC = clamp(CqColor(C0[0], C0[1], C0[2]), mnC, mxC);
	for(int i = 0; i < 3; ++i)
	{
		double w = (1 - double(t))*a[i] + double(t)*b[i], lw = std::min(a[i], b[i]), hw = std::max(a[i], b[i]), cw = std::min(std::max(double(C0[i]), lw), hw);
		near("vector:lerp", L[i], w, 1e-5); near("color:lerp", LC[i], w, 1e-5);
		near("vector:min", mn[i], lw, 0); near("vector:max", mx[i], hw, 0); near("color:min", mnC[i], lw, 0); near("color:max", mxC[i], hw, 0);
		near("vector:clamp", cl[i], cw, 0); near("color:clamp", clC[i], cw, 0);
	}
	CqVector3D s1 = A + B, s2 = A - B, s3 = A*f, s4 = f*A, s5 = A/f, s6 = A + f, s7 = A - f, s8 = -A, s9 = f - A, e1 = A, e2 = A, e3 = A, e4 = A, e5 = A;
	e1 += B; e2 -= B; e3 *= f; e4 /= f; e5 *= B;
	CqColor c1 = P + Q, c2 = P - Q, c3 = P*Q, c4 = P*f, c5 = f*P, c6 = P/f, c7 = P + f, c8 = f - P, c9 = -P, d1 = P, d2 = P, d3 = P, d4 = P;
	d1 += Q; d2 -= Q; d3 *= Q; d4 /= f;
	for(int i = 0; i < 3; ++i)
	{
		double want[] = {a[i] + b[i], a[i] - b[i], a[i]*f, a[i]*f, a[i]/f, a[i] + f, a[i] - f, -a[i], f - a[i]};
		CqVector3D* g[] = {&s1, &s2, &s3, &s4, &s5, &s6, &s7, &s8, &s9};
		for(int k = 0; k < 9; ++k) near("vector:arithmetic", (*g[k])[i], want[k], 1e-5, "operator " + str(k));
		double we[] = {a[i] + b[i], a[i] - b[i], a[i]*f, a[i]/f, a[i]*b[i]};
		CqVector3D* ge[] = {&e1, &e2, &e3, &e4, &e5};
		for(int k = 0; k < 5; ++k) near("vector:assignment", (*ge[k])[i], we[k], 1e-5, "operator " + str(k));
		double wc[] = {a[i] + b[i], a[i] - b[i], a[i]*b[i], a[i]*f, a[i]*f, a[i]/f, a[i] + f, f - a[i], -a[i], a[i] + b[i], a[i] - b[i], a[i]*b[i], a[i]/f};
		CqColor* gc[] = {&c1, &c2, &c3, &c4, &c5, &c6, &c7, &c8, &c9, &d1, &d2, &d3, &d4};
		for(int k = 0; k < 13; ++k) near("color:arithmetic", (*gc[k])[i], wc[k], 1e-5, "operator " + str(k));
	}
	CqVector2D u1 = U + V, u2 = U - V, u3 = U*f, u4 = U/f, u5 = U; u5 += V;
	for(int i = 0; i < 2; ++i)
	{
		near("vector2:arithmetic", u1[i], a[i] + b[i], 1e-5); near("vector2:arithmetic", u2[i], a[i] - b[i], 1e-5); near("vector2:arithmetic", u3[i], a[i]*f, 1e-5);
		near("vector2:arithmetic", u4[i], a[i]/f, 1e-5); near("vector2:arithmetic", u5[i], a[i] + b[i], 1e-5);
	}
	near("vector2:magnitude", U.Magnitude(), std::sqrt(a[0]*a[0] + a[1]*a[1]), 1e-5);
	bool eq = a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
	if((A == B) != eq || (A != B) == eq || (P == Q) != eq || (P != Q) == eq) fail("vector:equality", str(A) + str(B));
	bool eq2 = a[0] == b[0] && a[1] == b[1];
	if((U == V) != eq2 || (U != V) == eq2) fail("vector2:equality", str(A) + str(B));
	CqVector3D A1 = A; int k = r.i(0, 2); A1[k] += 1;
	if(A1 == A || !(A1 != A)) fail("vector:equality", str(A));
	float arr[3] = {float(a[0]), float(a[1]), float(a[2])};
	CqVector3D fa(arr); CqColor ca(arr);
	if(!(fa == A) || !(ca == P)) fail("vector:array", str(A));
	if(!(vectorCast<CqVector3D>(P) == A) || !(vectorCast<CqColor>(A) == P)) fail("vector:cast", str(A));
	float h = r.f(.3, 3);
	CqVector4D A4(a[0]*h, a[1]*h, a[2]*h, h);
	CqVector3D A3 = vectorCast<CqVector3D>(A4);
	for(int i = 0; i < 3; ++i) near("vector:homogeneous", A3[i], a[i], 1e-4);
	CqVector4D B4 = vectorCast<CqVector4D>(A);
	for(int i = 0; i < 4; ++i) near("vector:homogeneous", B4[i], i < 3 ? a[i] : 1, 0);
	// scalars
	double v = r.i(0, 3) ? r.f(-1e4, 1e4) : r.i(0, 1) ? r.i(-20, 20) : r.i(-20, 20) + .5;
	if(r.i(0, 1)) v = float(v);
	near("scalar:lfloor", lfloor(v), std::floor(v), 0); near("scalar:lceil", lceil(v), std::ceil(v), 0);
	near("scalar:lround", Aqsis::lround(v), std::ceil(v - .5), std::fabs(v - .5 - std::floor(v - .5)) < 1e-9 ? 1 : 0, str(v));
	near("scalar:round", Aqsis::round(v), std::floor(v + .5), std::fabs(v - .5 - std::floor(v - .5)) < 1e-9 ? 1 : 0, str(v));
	near("scalar:lerp", lerp(t, float(a[0]), float(b[0])), (1 - t)*a[0] + t*b[0], 1e-5);
	near("scalar:clamp", clamp(float(v), -3.f, 5.f), std::min(std::max(v, -3.), 5.), 1e-3);
	near("scalar:degrees", radToDeg(degToRad(v)), v, 1e-2); near("scalar:radians", degToRad(180), M_PI, 1e-6);
	unsigned p2 = r.i(0, 1) ? unsigned(r.g()) >> r.i(1, 31) : 1u << r.i(0, 30); if(p2 == 0) p2 = 1; if(p2 > (1u << 31)) p2 = 1u << 31;
	unsigned c2w = 1; while(c2w < p2) c2w <<= 1;
	if(ceilPow2(p2) != c2w) fail("scalar:ceilPow2", str(p2) + " " + str(ceilPow2(p2), c2w));
	double big = std::pow(10, r.f(-20, 20)); near("scalar:log2", Aqsis::log2(float(big)), std::log(double(float(big)))/std::log(2.), 1e-4);
	if(!isClose(float(big), float(big)) || !isClose(float(big), float(big*(1 + 3e-7))) || isClose(float(big), float(big*1.0001)) || isClose(float(big), float(-big)) || !isClose(float(big), float(big*1.0001), 1e-3f)) fail("scalar:isClose", str(big));
}

//-------------------------------------------------------------------- colour
static void colorCase(Rng& r)
{
	double c[3];
	for(int i = 0; i < 3; ++i) c[i] = float(r.i(0, 4) ? r.f(0, 1) : r.i(0, 2)*.5);
	if(r.i(0, 5) == 0) c[1] = c[0];
	if(r.i(0, 5) == 0) c[2] = c[r.i(0, 1)];
	CqColor C(c[0], c[1], c[2]);
	std::string what = str(C);
	double mx = std::max(c[0], std::max(c[1], c[2])), mn = std::min(c[0], std::min(c[1], c[2])), d = mx - mn;
	CqColor hsv = rgbtohsv(C), hsl = rgbtohsl(C), xyz = rgbtoXYZ(C), xyy = rgbtoxyY(C), yiq = rgbtoYIQ(C);
	double h = 0;
	if(d > 0)
	{
		if(mx == c[0]) h = (c[1] - c[2])/d; else if(mx == c[1]) h = 2 + (c[2] - c[0])/d; else h = 4 + (c[0] - c[1])/d;
		h /= 6; if(h < 0) h += 1;
	}
	near("hsv:value", hsv[2], mx, 1e-6, what); near("hsv:saturation", hsv[1], mx > 0 ? d/mx : 0, 1e-5, what);
	double l = (mx + mn)/2;
	near("hsl:lightness", hsl[2], l, 1e-6, what);
	if(d > 1e-4)
	{
		double dh = std::fabs(hsv[0] - h), dl = std::fabs(hsl[0] - h);
		near("hsv:hue", std::min(dh, std::fabs(1 - dh)), 0, 1e-4, what); near("hsl:hue", std::min(dl, std::fabs(1 - dl)), 0, 1e-4, what);
		near("hsl:saturation", hsl[1], l < .5 ? d/(mx + mn) : d/(2 - mx - mn), 1e-4, what);
	}
	else if(d == 0) near("hsl:saturation", hsl[1], 0, 1e-5, what);
	double RX[3][3] = {{.412453, .357580, .180423}, {.212671, .715160, .072169}, {.019334, .119193, .950227}}, RY[3][3] = {{.299, .587, .114}, {.596, -.274, -.322}, {.212, -.523, .311}};
	double X[3], Y[3];
	for(int i = 0; i < 3; ++i) { X[i] = RX[i][0]*c[0] + RX[i][1]*c[1] + RX[i][2]*c[2]; Y[i] = RY[i][0]*c[0] + RY[i][1]*c[1] + RY[i][2]*c[2]; }
	for(int i = 0; i < 3; ++i) { near("xyz", xyz[i], X[i], 2e-3, what); near("yiq", yiq[i], Y[i], 2e-3, what); }
	double sum = X[0] + X[1] + X[2];
	if(sum > .02) { near("xyY", xyy[0], X[0]/sum, 3e-3, what); near("xyY", xyy[1], X[1]/sum, 3e-3, what); near("xyY", xyy[2], X[1], 2e-3, what); }
	CqColor back[] = {hsvtorgb(hsv), hsltorgb(hsl), XYZtorgb(xyz), xyYtorgb(xyy), YIQtorgb(yiq)};
	const char* names[] = {"hsv", "hsl", "XYZ", "xyY", "YIQ"};
	for(int k = 0; k < 5; ++k) for(int i = 0; i < 3; ++i)
		if(k != 3 || sum > .02)
			near(std::string("roundtrip:") + names[k], back[k][i], c[i], 5e-3, what);
	g_counts["colors"]++;
}

//------------------------------------------------------------------- splines
template<class T> static double comp(const T& v, int i) { return v[i]; }
template<> double comp(const float& v, int) { return v; }
template<class T> static T value(Rng& r) { return T(r.f(-3, 3), r.f(-3, 3), r.f(-3, 3)); }
template<> float value(Rng& r) { return r.f(-3, 3); }
template<class T> static void splineOf(Rng& r, int ncomp)
{
	static const char* names[] = {"bezier", "bspline", "catmull-rom", "hermite", "power", "linear"};
	static const int step[] = {3, 1, 1, 2, 4, 1};
	static const double B[6][4][4] = {
		{{-1, 3, -3, 1}, {3, -6, 3, 0}, {-3, 3, 0, 0}, {1, 0, 0, 0}},
		{{-1/6., .5, -.5, 1/6.}, {.5, -1, .5, 0}, {-.5, 0, .5, 0}, {1/6., 2/3., 1/6., 0}},
		{{-.5, 1.5, -1.5, .5}, {1, -2.5, 2, -.5}, {-.5, 0, .5, 0}, {0, 1, 0, 0}},
		{{2, 1, -2, 1}, {-3, -2, 3, -1}, {0, 1, 0, 0}, {1, 0, 0, 0}},
		{{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}},
		{{0, 0, 0, 0}, {0, 0, 0, 0}, {0, -1, 1, 0}, {0, 1, 0, 0}}};
	int k = r.i(0, 5), sec = r.i(1, 6), n = 4 + step[k]*(sec - 1);
	CqCubicSpline<T> s((CqString(names[k])), n);
	if(r.i(0, 3) == 0) s = CqCubicSpline<T>(static_cast<EqSplineBasis>(k));
	std::vector<T> cv;
	for(int i = 0; i < n; ++i) { cv.push_back(value<T>(r)); s.pushBack(cv.back()); }
	for(int q = 0; q < 12; ++q)
	{
		double t = float(q == 0 ? 0 : q == 1 ? 1 : r.i(0, 3) ? r.f(0, 1) : double(r.i(0, sec))/sec);
		T got = s.evaluate(float(t));
		double p = t*sec; int sg = int(std::floor(p)); if(sg >= sec) sg = sec - 1; if(sg < 0) sg = 0;
		double best = 1e30;
		for(int alt = 0; alt < 3; ++alt)
		{
			int g = sg + alt - 1; double u = p - g;
			if(g < 0 || g >= sec || u < -1e-5 || u > 1 + 1e-5) continue;
			double tt[4] = {u*u*u, u*u, u, 1}, err = 0;
			for(int c = 0; c < ncomp; ++c)
			{
				double v = 0;
				for(int j = 0; j < 4; ++j) { double w = 0; for(int i = 0; i < 4; ++i) w += tt[i]*B[k][i][j]; v += w*comp(cv[g*step[k] + j], c); }
				err = std::max(err, std::fabs(v - comp(got, c)));
			}
			best = std::min(best, err);
		}
		near(std::string("spline:") + names[k], best, 0, 5e-4, std::string(names[k]) + " of " + str(n) + " points at " + str(t));
	}
	g_counts["splines"]++;
}

//--------------------------------------------------------------------- noise
static double noiseAt(int fn, int comp, const double* x, const int* per)
{
	CqVector3D v(x[0], x[1], x[2]), p(per[0], per[1], per[2]);
	float t = x[3];
	switch(fn)
	{
		case 0: return CqNoise::FGNoise1(x[0]); case 1: return CqNoise::FGNoise2(x[0], x[1]); case 2: return CqNoise::FGNoise3(v); case 3: return CqNoise::FGNoise4(v, t);
		case 4: return CqNoise::FGPNoise1(x[0], per[0]); case 5: return CqNoise::FGPNoise2(x[0], x[1], per[0], per[1]); case 6: return CqNoise::FGPNoise3(v, p); case 7: return CqNoise::FGPNoise4(v, t, p, per[3]);
		case 8: return CqNoise::PGNoise1(x[0])[comp]; case 9: return CqNoise::PGNoise2(x[0], x[1])[comp]; case 10: return CqNoise::PGNoise3(v)[comp]; case 11: return CqNoise::PGNoise4(v, t)[comp];
		case 12: return CqNoise::PGPNoise1(x[0], per[0])[comp]; case 13: return CqNoise::PGPNoise2(x[0], x[1], per[0], per[1])[comp]; case 14: return CqNoise::PGPNoise3(v, p)[comp]; case 15: return CqNoise::PGPNoise4(v, t, p, per[3])[comp];
		case 16: return CqNoise::CGNoise1(x[0])[comp]; case 17: return CqNoise::CGNoise2(x[0], x[1])[comp]; case 18: return CqNoise::CGNoise3(v)[comp]; case 19: return CqNoise::CGNoise4(v, t)[comp];
		case 20: return CqNoise::CGPNoise1(x[0], per[0])[comp]; case 21: return CqNoise::CGPNoise2(x[0], x[1], per[0], per[1])[comp]; case 22: return CqNoise::CGPNoise3(v, p)[comp]; default: return CqNoise::CGPNoise4(v, t, p, per[3])[comp];
	}
}
static void noiseCase(Rng& r)
{
	int fn = r.i(0, 23), dim = fn%4 + 1, c = r.i(0, 2);
	bool periodic = (fn/4)%2 == 1;
	double x[4]; int per[4];
	for(int i = 0; i < 4; ++i) { x[i] = float(r.i(0, 4) ? r.f(-300, 300) : r.i(-300, 300)); per[i] = r.i(0, 2) ? r.i(1, 12) : r.i(1, 256); }
	std::string what = "noise " + str(fn) + " component " + str(c) + " at " + str(x[0]) + "," + str(x[1]) + "," + str(x[2]) + "," + str(x[3]) + " period " + str(per[0]) + "," + str(per[1]) + "," + str(per[2]) + "," + str(per[3]);
	double v = noiseAt(fn, c, x, per);
	std::string k = "noise" + str(fn);
	if(!(v >= 0 && v <= 1)) fail(k + ":range", what + " is " + str(v));
	near(k + ":repeat", noiseAt(fn, c, x, per), v, 0, what);
	// on the lattice gradient noise is one half
	double z[4]; for(int i = 0; i < 4; ++i) z[i] = r.i(-200, 200);
	if(fn < 8) near(k + ":lattice", noiseAt(fn, c, z, per), .5, 1e-5, what);
	// continuous
	int ax = r.i(0, dim - 1);
	double y[4]; for(int i = 0; i < 4; ++i) y[i] = x[i];
	y[ax] = float(x[ax] + r.f(-1, 1)*1e-3);
	near(k + ":continuous", noiseAt(fn, c, y, per), v, .012, what + " axis " + str(ax));
	// the same again one period on, along every axis
	if(periodic)
	{
		for(int i = 0; i < 4; ++i) y[i] = std::floor(x[i]*64)/64;
		double a = noiseAt(fn, c, y, per);
		for(int i = 0; i < dim; ++i) y[i] += per[i]*r.i(-2, 2);
		near(k + ":periodic", noiseAt(fn, c, y, per), a, 2e-4, what);
		// with a period of the whole table it is the plain noise
		int full[4] = {256, 256, 256, 256};
		double w[4]; for(int i = 0; i < 4; ++i) w[i] = r.f(0, 250);
		near(k + ":fullperiod", noiseAt(fn, c, w, full), noiseAt(fn - 4, c, w, full), 1e-5, what);
	}
	g_counts["noises"]++;
	static CqCellNoise cn;
	CqVector3D P(x[0], x[1], x[2]), P2(std::floor(x[0]) + r.f(.001, .999), std::floor(x[1]) + r.f(.001, .999), std::floor(x[2]) + r.f(.001, .999));
	float t2 = std::floor(x[3]) + r.f(.001, .999);
	float f[4] = {cn.FCellNoise1(x[0]), cn.FCellNoise2(x[0], x[1]), cn.FCellNoise3(P), cn.FCellNoise4(P, x[3])};
	float g[4] = {cn.FCellNoise1(P2.x()), cn.FCellNoise2(P2.x(), P2.y()), cn.FCellNoise3(P2), cn.FCellNoise4(P2, t2)};
	for(int i = 0; i < 4; ++i)
	{
		near("cellnoise:constant", g[i], f[i], 0, what);
		if(!(f[i] >= 0 && f[i] <= 1)) fail("cellnoise:range", what);
	}
	CqVector3D pa[4] = {cn.PCellNoise1(x[0]), cn.PCellNoise2(x[0], x[1]), cn.PCellNoise3(P), cn.PCellNoise4(P, x[3])}, pb[4] = {cn.PCellNoise1(P2.x()), cn.PCellNoise2(P2.x(), P2.y()), cn.PCellNoise3(P2), cn.PCellNoise4(P2, t2)};
	for(int i = 0; i < 4; ++i) for(int j = 0; j < 3; ++j)
	{
		near("cellnoise:constant", pb[i][j], pa[i][j], 0, what);
		if(!(pa[i][j] >= 0 && pa[i][j] <= 1)) fail("cellnoise:range", what);
	}
}
// statistics over many cells
static void noiseStats(Rng& r)
{
	static CqCellNoise cn;
	int fn = r.i(0, 23), c = r.i(0, 2), n = 4000, per[4] = {97, 89, 101, 103};
	double s = 0, s2 = 0, cs[4] = {0, 0, 0, 0};
	int diff[4] = {0, 0, 0, 0};
	for(int i = 0; i < n; ++i)
	{
		double x[4]; for(int j = 0; j < 4; ++j) x[j] = r.f(-100, 100);
		double v = noiseAt(fn, c, x, per);
		s += v; s2 += v*v;
		CqVector3D P(x[0], x[1], x[2]);
		float a[4] = {cn.FCellNoise1(x[0]), cn.FCellNoise2(x[0], x[1]), cn.FCellNoise3(P), cn.FCellNoise4(P, x[3])};
		P = CqVector3D(x[0] + 1, x[1], x[2]);
		float b[4] = {cn.FCellNoise1(x[0] + 1), cn.FCellNoise2(x[0], x[1] + 1), cn.FCellNoise3(P), cn.FCellNoise4(CqVector3D(x[0], x[1], x[2]), x[3] + 1)};
		for(int k = 0; k < 4; ++k) { cs[k] += a[k]; diff[k] += a[k] != b[k]; }
	}
	s /= n; s2 = std::sqrt(std::max(0., s2/n - s*s));
	near("noisestats:mean", s, .5, .03, "noise " + str(fn));
	if(!(s2 > .05 && s2 < .3)) fail("noisestats:deviation", "noise " + str(fn) + " " + str(s2));
	for(int k = 0; k < 4; ++k) { near("cellstats:mean", cs[k]/n, .5, .06); if(diff[k] < n*.95) fail("cellstats:cells", "neighbouring cells are the same " + str(k) + " " + str(diff[k])); }
	g_counts["noise_statistics"]++;
}

//-------------------------------------------------------------------- random
static void randomCase(Rng& r)
{
	unsigned seed = r.i(0, 3) ? unsigned(r.g()) : r.i(0, 3);
	CqRandom q; q.Reseed(seed);
	std::mt19937 mt(seed);
	int n = r.i(1, 1500);
	for(int i = 0; i < n; ++i)
	{
		unsigned w = mt();
		if(i % 3 == 0) { unsigned g = q.RandomInt(); g_counts["random_ints"]++; if(g != w) { fail("random:sequence", "seed " + str(seed) + " draw " + str(i) + " is " + str(g, w)); return; } }
		else if(i % 3 == 1)
		{
			float g = q.RandomFloat();
			if(!(g >= 0 && g < 1) || std::fabs(g - w/4294967296.) > 1e-6) { fail("random:float", "seed " + str(seed) + " draw " + str(i) + " is " + str(g, w/4294967296.)); return; }
		}
		else
		{
			unsigned range = r.i(0, 2) ? r.i(1, 100) : r.i(1, 1 << 24);
			unsigned g = q.RandomInt(range);
			if(g >= range) { fail("random:range", str(g) + " of " + str(range)); return; }
		}
	}
	float rg = std::pow(10, r.f(-3, 6));
	for(int i = 0; i < 200; ++i) { float g = q.RandomFloat(rg); if(!(g >= 0 && g <= rg)) { fail("random:floatrange", str(g) + " of " + str(rg)); return; } }
	CqLowDiscrepancy ld(r.i(1, 6));
	double m = 0; int N = 1000;
	for(int i = 0; i < N; ++i) { float g = ld.Generate(0, i); m += g; if(!(g >= 0 && g < 1.000001)) { fail("lowdiscrepancy:range", str(g)); return; } }
	near("lowdiscrepancy:mean", m/N, .5, .03);
}

int main(int argc, char** argv)
{
	if(argc < 5) return 2;
	std::string mode = argv[1];
	unsigned long seed = std::strtoul(argv[3], 0, 10);
	int n = std::atoi(argv[4]), only = argc > 5 ? std::atoi(argv[5]) : -1;
	for(int i = 0; i < n; ++i)
	{
		if(only >= 0 && i != only) continue;
		Rng r(seed*1000003UL + i);
		g_failed = false;
		std::cout << "CASE " << i << "\n";
		try
		{
			if(mode == "matrix") { matrixCase(r); matrix2Case(r); }
			else if(mode == "vector") { vectorCase(r); colorCase(r); splineOf<float>(r, 1); splineOf<CqVector3D>(r, 3); splineOf<CqColor>(r, 3); }
			else if(mode == "noise") { noiseCase(r); if(i % 50 == 0) noiseStats(r); if(i % 5 == 0) randomCase(r); }
		}
		catch(std::exception& e) { fail("exception", e.what()); }
	}
	for(std::map<std::string, long>::iterator i = g_counts.begin(); i != g_counts.end(); ++i)
		std::cout << "COUNT " << i->first << " " << i->second << "\n";
	std::cout << "DONE" << std::endl;
}
