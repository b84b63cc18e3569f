/* Brute-force ray / triangle intersection used by the reference images. */
#include <stdlib.h>
#include <math.h>
typedef struct { double t; int tri; double b1, b2; } Hit;
static int cmp(const void* a, const void* b) { double x = ((const Hit*)a)->t, y = ((const Hit*)b)->t; return x < y ? -1 : x > y ? 1 : 0; }
/* tris: n*9 doubles, rays: m*6 (origin, direction); out: m*K hits sorted by t.
   near <= t <= far.  cnt[m]: number of hits (may exceed K, then the nearest K are kept). */
void raycast(int n, const double* tris, int m, const double* rays, const float* box, const float* rxy, double nearT, double farT, int K, int* cnt, int* tri, double* tt, double* bb)
{
    Hit* H = malloc(sizeof(Hit)*4096);
    for(int r = 0; r < m; ++r)
    {
        const double* o = rays + 6*r; const double* d = o + 3;
        int k = 0; float X = rxy[2*r], Y = rxy[2*r+1];
        for(int i = 0; i < n; ++i)
        {
            const float* q = box + 4*i;
            if(X < q[0] || X > q[1] || Y < q[2] || Y > q[3]) continue;
            const double* p = tris + 9*i;
            double e1x = p[3]-p[0], e1y = p[4]-p[1], e1z = p[5]-p[2];
            double e2x = p[6]-p[0], e2y = p[7]-p[1], e2z = p[8]-p[2];
            double hx = d[1]*e2z - d[2]*e2y, hy = d[2]*e2x - d[0]*e2z, hz = d[0]*e2y - d[1]*e2x;
            double a = e1x*hx + e1y*hy + e1z*hz;
            if(a == 0) continue;
            double f = 1/a;
            double sx = o[0]-p[0], sy = o[1]-p[1], sz = o[2]-p[2];
            double u = f*(sx*hx + sy*hy + sz*hz);
            if(u < -1e-12 || u > 1+1e-12) continue;
            double qx = sy*e1z - sz*e1y, qy = sz*e1x - sx*e1z, qz = sx*e1y - sy*e1x;
            double v = f*(d[0]*qx + d[1]*qy + d[2]*qz);
            if(v < -1e-12 || u+v > 1+1e-12) continue;
            double t = f*(e2x*qx + e2y*qy + e2z*qz);
            if(t < nearT || t > farT) continue;
            if(k < 4096) { H[k].t = t; H[k].tri = i; H[k].b1 = u; H[k].b2 = v; ++k; }
        }
        qsort(H, k, sizeof(Hit), cmp);
        cnt[r] = k;
        for(int j = 0; j < k && j < K; ++j) { tri[r*K+j] = H[j].tri; tt[r*K+j] = H[j].t; bb[2*(r*K+j)] = H[j].b1; bb[2*(r*K+j)+1] = H[j].b2; }
    }
    free(H);
}
