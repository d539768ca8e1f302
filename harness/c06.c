/* C06: projection.  Glass normals are rational unit vectors times a symbolic distance. */
#include "vp.h"
#include "multimed.h"
#include "imgcoord.h"
#include "ray_tracing.h"
#include "trafo.h"
#ifndef SMAX
#define SMAX 1
#define FMIN 4
#endif
#ifndef GS
#define GS 0
#define GE 5
#endif
static const int GL[][4] = {{0, 0, 1, 1}, {2, 1, 2, 3}, {-2, 3, 6, 7}, {4, 0, 3, 5}, {0, -3, 4, 5}, {1, 2, 2, 3}};
static const int DIR[][4] = {{2, 3, -6, 7}, {-1, 2, -2, 3}, {4, 0, -3, 5}, {0, 0, -1, 1}, {-6, -2, -3, 7}, {0, -8, -15, 17}};
static const int ROT[][10] = {{1,0,0, 0,1,0, 0,0,1, 1}, {2,-1,2, 2,2,-1, -1,2,2, 3}, {3,0,4, 0,5,0, -4,0,3, 5},
                              {6,-3,2, 2,6,3, -3,-2,6, 7}, {0,-1,0, 1,0,0, 0,0,1, 1}, {1,0,0, 0,4,-3, 0,3,4, 5}};
static double dot(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static double g[3], D, d, CP[3], pos[3], lat[3], zc, zp;
static Calibration cal; static mm_np mm;
/* camera, point and glass: lat is the part of point minus camera parallel to the glass, zc and zp the heights over the inner surface */
static void scene(void)
{
    int c = vp_pick(vp_int("glass normal", GS, GE)), i;
    memset(&cal, 0, sizeof cal); memset(&mm, 0, sizeof mm);
    D = 25; d = vp_double("thickness", .5, 10);
    for (i = 0; i < 3; i++) { g[i] = (double)GL[c][i] / GL[c][3]; CP[i] = vp_double("camera", -200, 200); pos[i] = vp_double("point", -200, 200); }
#ifdef FIXED
    for (i = 0; i < 3; i++) { CP[i] = 30 + 50 * i; pos[i] = -20 + 7 * i; }
    d = 4;
#endif
#ifdef NORMAL_D
    d = 4;
#endif
    zc = dot(CP, g) - D; zp = dot(pos, g) - D;
    for (i = 0; i < 3; i++) lat[i] = pos[i] - CP[i] - (zp - zc) * g[i];
    cal.ext_par.x0 = CP[0]; cal.ext_par.y0 = CP[1]; cal.ext_par.z0 = CP[2];
    cal.glass_par.vec_x = g[0] * D; cal.glass_par.vec_y = g[1] * D; cal.glass_par.vec_z = g[2] * D;
    mm.nlay = 1; mm.n1 = mm.n2[0] = mm.n3 = 1; mm.d[0] = d;
}
void h_frame(void)
{
    Exterior t; vec3d pt, cp, cc, back, diff; double m; int i;
    scene();
    t.x0 = t.y0 = t.z0 = 7;
    trans_Cam_Point(cal.ext_par, mm, cal.glass_par, pos, &t, pt, cp, cc);
    vp_assert(t.x0 == 0 && t.y0 == 0, "the camera is on the Z axis of the new frame");
    vp_assert(vp_close(t.z0, zc, 1e-6), "the camera's height over the inner glass surface is kept");
    vp_assert(pt[1] == 0 && pt[0] >= 0, "the point is in the XZ plane of the new frame");
    vp_assert(vp_close(pt[2], zp, 1e-6), "the point's height over the inner glass surface is kept");
    vp_assert(vp_close(pt[0] * pt[0], dot(lat, lat), 1e-4), "the distance along the glass is kept");
    for (i = 0; i < 3; i++) {
        vp_assert(vp_close(cp[i], pos[i] - zp * g[i], 1e-6), "the point's foot is on the inner glass surface");
        vp_assert(vp_close(cc[i], CP[i] - (zc - d) * g[i], 1e-6), "the camera's foot is on the outer glass surface");
    }
    m = vp_double("factor", .5, 2);
    pt[0] *= m;
    back_trans_Point(pt, mm, cal.glass_par, cp, cc, back);
    for (i = 0; i < 3; i++) vp_assert(vp_close(back[i], pos[i] + (m - 1) * lat[i], 1e-6), "the way back shifts the point along the glass by the given factor only");
    vp_reach("end");
}
/* the refraction factor is arbitrary: the image is the collinear projection of the shifted point */
static double fac; static int bad; static void *lut;
double vp_override_multimed_r_nlay(Calibration *c, mm_np *m, vec3d p)
{
    bad |= (c->mmlut.data != lut) | (m != &mm) | (c->mmlut.nz != cal.mmlut.nz);
    bad |= !(c->ext_par.x0 == 0 && c->ext_par.y0 == 0);
    vp_assert(vp_close(c->ext_par.z0, zc, 1e-6) & vp_close(p[2], zp, 1e-6), "the factor is asked for at the point's height");
    return fac;
}
void h_project(void)
{
    vec3d a; double x, y, nx, ny, den; int i, j, c = vp_pick(vp_int("configuration", 0, 5));
    scene();
    fac = vp_pick(vp_int("factor", FMIN, 4)) / 3.; lut = cal.mmlut.data = malloc(8); cal.mmlut.nz = 17;
    cal.int_par.cc = 6; cal.int_par.xh = 3; cal.int_par.yh = 4;
    nx = ny = den = 0;
    for (i = 0; i < 3; i++) {
#ifdef ANYROT
        for (j = 0; j < 3; j++) cal.ext_par.dm[i][j] = vp_double("dm", -1, 1);
#else
        for (j = 0; j < 3; j++) cal.ext_par.dm[i][j] = (double)ROT[c][3 * i + j] / ROT[c][9];
#endif
        a[i] = pos[i] - CP[i] + (fac - 1) * lat[i];
        nx += cal.ext_par.dm[i][0] * a[i]; ny += cal.ext_par.dm[i][1] * a[i]; den += cal.ext_par.dm[i][2] * a[i];
    }
    vp_assume(den > 1 || den < -1);
    flat_image_coord(pos, &cal, &mm, &x, &y);
    vp_assert(!bad, "the refraction factor is computed with the camera's look-up table and the given media, camera on the Z axis");
    vp_assert(vp_close(y * den, -cal.int_par.cc * ny, 1e-3), "y is the collinear projection of the shifted point");
    vp_assert(vp_close(x * den, -cal.int_par.cc * nx, 1e-3), "x is the collinear projection of the shifted point");
    free(cal.mmlut.data);
    vp_reach("end");
}
/* one medium, the real refraction code: the factor is one */
void h_medium(void)
{
    vec3d p; double f; int i;
    scene();
    mm.n1 = 1; for (i = 0; i < 3; i++) p[i] = vp_double("p", -100, 100);
    f = multimed_r_nlay(&cal, &mm, p);
    vp_assert(f == 1, "in a single medium nothing is shifted");
    vp_reach("end");
}
/* a point of the traced ray projects back (one medium) */
void h_ray(void)
{
    vec3d X, out, q; double k, t, x, y, px, py, cs = 0, den; int i, j, c = vp_pick(vp_int("configuration", 0, 5));
    scene();
    k = vp_pick(vp_int("scale", 1, SMAX));
    for (i = 0; i < 3; i++) {
        double s = 0;
        for (j = 0; j < 3; j++) { cal.ext_par.dm[i][j] = (double)ROT[c][3 * i + j] / ROT[c][9]; s += cal.ext_par.dm[i][j] * DIR[c][j]; }
        cs += s / DIR[c][3] * g[i];
    }
    if (cs >= -.05) return;
    vp_assume(zc > d + 1);
    x = k * DIR[c][0]; y = k * DIR[c][1]; cal.int_par.cc = -k * DIR[c][2];
    ray_tracing(x, y, &cal, mm, X, out);
    t = vp_double("way", 0, 100);
    for (i = 0; i < 3; i++) q[i] = X[i] + t * out[i];
    flat_image_coord(q, &cal, &mm, &px, &py);
    vp_assert(vp_close(px, x, 1e-6) & vp_close(py, y, 1e-6), "a point on the ray of an image coordinate projects back to it");
    vp_reach("end");
}
/* distorted image = distortion of the flat image */
void h_distorted(void)
{
    double x, y, fx, fy, dx, dy; int i;
    scene();
    cal.int_par.cc = 10; cal.int_par.xh = vp_double("xh", -1, 1); cal.int_par.yh = vp_double("yh", -1, 1); cal.ext_par.dm[0][0] = cal.ext_par.dm[1][1] = cal.ext_par.dm[2][2] = 1;
    cal.added_par.scx = 1; cal.added_par.k1 = vp_double("k1", -.1, .1); cal.added_par.p1 = .01; cal.added_par.p2 = -.02; cal.added_par.she = 0;
    vp_assume(pos[2] - CP[2] < -1);
    flat_image_coord(pos, &cal, &mm, &fx, &fy);
    flat_to_dist(fx, fy, &cal, &dx, &dy);
    img_coord(pos, &cal, &mm, &x, &y);
    vp_assert(vp_close(x, dx, 1e-6) & vp_close(y, dy, 1e-6), "the image coordinate is the distorted flat coordinate");
    vp_reach("end");
}
/* The refracted shift, where the iteration ends after one step: the formula with rational angles.
   tan1 = r / (z0 - Z); sines n1 s1 = n2 s2 = n3 s3 */
static const int AN[][5] = {{3, 4, 5, 5, 13}, {3, 4, 5, 8, 17}, {4, 3, 5, 3, 5}, {5, 12, 13, 7, 25}, {12, 5, 13, 3, 5}, {24, 7, 25, 3, 5}};   /* tan1 = a/b, sin1 = a/c; sin3 = p/q */
static const int A2[][2] = {{3, 5}, {7, 25}, {5, 13}, {8, 17}, {9, 41}};
void h_shift(void)
{
    double t1, s1, s3, t3, s2, t2, r, z0, Z, zout, F, f, n1; vec3d p; int i, c, b, nl;
    memset(&cal, 0, sizeof cal); memset(&mm, 0, sizeof mm);
    c = vp_pick(vp_int("angle", 0, 5)); nl = vp_pick(vp_int("layers", 1, 3));
    n1 = vp_pick(vp_int("n1", 3, 4)) / 3.;
    t1 = (double)AN[c][0] / AN[c][1]; s1 = (double)AN[c][0] / AN[c][2];
    s3 = (double)AN[c][3] / AN[c][4];
    t3 = AN[c][3] / (double)(AN[c][4] == 13 ? 12 : AN[c][4] == 17 ? 15 : AN[c][4] == 5 ? 4 : 24);
    mm.nlay = nl; mm.n1 = n1; mm.n3 = n1 * s1 / s3;
    Z = vp_double("Z", -50, 20); z0 = Z + 15 * vp_pick(vp_int("height", 2, 3));
    zout = Z; F = 0;
    for (i = 0; i < nl; i++) {
        b = (c + i) % 5;
        s2 = (double)A2[b][0] / A2[b][1];
        t2 = A2[b][0] / (double)(A2[b][1] == 5 ? 4 : A2[b][1] == 25 ? 24 : A2[b][1] == 13 ? 12 : A2[b][1] == 17 ? 15 : 40);
        mm.n2[i] = n1 * s1 / s2;
        mm.d[i] = vp_double("d", .1, 10);
        F += mm.d[i] * t2;
        if (i) zout += mm.d[i];
    }
    F += (z0 - mm.d[0]) * t1 - zout * t3;
    cal.ext_par.x0 = vp_double("x0", -10, 10); cal.ext_par.y0 = vp_double("y0", -10, 10); cal.ext_par.z0 = z0;
    r = t1 * (z0 - Z);
    p[0] = cal.ext_par.x0 + r * 3 / 5; p[1] = cal.ext_par.y0 - r * 4 / 5; p[2] = Z;
    vp_assume(r - F < .0009); vp_assume(r - F > -.0009);
    f = multimed_r_nlay(&cal, &mm, p);
    vp_assert(vp_close(f * r, r + (r - F), 1e-9), "the returned factor leads to the point where the refracted ray meets the glass");
    vp_reach("end");
}
/* the iteration ends after two steps: radius of the first step r, of the second the one of a second rational angle */
static const int S2[][7] = {{1092, 1717, 1325, 2535, 2047, 2991, 2584}, {1496, 2225, 1647, 2873, 1375, 1649, 1068}, {72, 97, 65, 75, 44, 435, 364}};
static double T(double s, double n) { return s / sqrt(n * n - s * s); }
void h_shift2(void)
{
    double t, tt, s, ss, r, q, z0, Z, F[2], f, H; vec3d p; int k, c, n;
    memset(&cal, 0, sizeof cal); memset(&mm, 0, sizeof mm);
    c = vp_pick(vp_int("second angle", 0, 2)); n = vp_pick(vp_int("media", 0, 1));
    mm.nlay = 2; mm.n1 = 1; mm.n2[0] = S2[c][3 + 2 * n] / (double)S2[c][4 + 2 * n]; mm.n2[1] = S2[c][5 - 2 * n] / (double)S2[c][6 - 2 * n]; mm.n3 = mm.n2[1];
    if (n) mm.n3 = mm.n2[0];
    mm.d[0] = vp_double("d0", -1000, 1000); mm.d[1] = vp_double("d1", -1000, 1000);
    H = 30; Z = vp_double("Z", -1000, 1000); z0 = Z + H;
    t = .75; s = .6; tt = (double)S2[c][0] / S2[c][2]; ss = (double)S2[c][0] / S2[c][1];
    r = t * H; q = tt * H;
    for (k = 0; k < 2; k++) {
        double sk = k ? ss : s;
        F[k] = (z0 - mm.d[0]) * (k ? tt : t) - (Z + mm.d[1]) * T(sk, mm.n3) + mm.d[0] * T(sk, mm.n2[0]) + mm.d[1] * T(sk, mm.n2[1]);
    }
    vp_assume(r + (r - F[0]) == q);
    vp_assume(r - F[1] < .0009); vp_assume(r - F[1] > -.0009);
    cal.ext_par.x0 = 1; cal.ext_par.y0 = 2; cal.ext_par.z0 = z0;
    p[0] = 1; p[1] = 2 + r; p[2] = Z;
    f = multimed_r_nlay(&cal, &mm, p);
    vp_assert(vp_close(f * r, q + (r - F[1]), 1e-7), "after two steps the returned factor leads to the point where the refracted ray meets the glass");
    vp_reach("end");
}
/* the steps alternate between two radii: no convergence */
void h_cycle(void)
{
    double t, tt, s, ss, r, q, z0, Z, F[2], f, H; vec3d p; int k, c = 2;
    memset(&cal, 0, sizeof cal); memset(&mm, 0, sizeof mm);
    mm.nlay = 2; mm.n1 = 1; mm.n2[0] = 75 / 44.; mm.n2[1] = 435 / 364.; mm.n3 = mm.n2[1];
    mm.d[0] = vp_double("d0", -1000, 1000); mm.d[1] = vp_double("d1", -1000, 1000);
    H = 30; Z = vp_double("Z", -1000, 1000); z0 = Z + H;
    t = .75; s = .6; tt = (double)S2[c][0] / S2[c][2]; ss = (double)S2[c][0] / S2[c][1];
    r = t * H; q = tt * H;
    for (k = 0; k < 2; k++) {
        double sk = k ? ss : s;
        F[k] = (z0 - mm.d[0]) * (k ? tt : t) - (Z + mm.d[1]) * T(sk, mm.n3) + mm.d[0] * T(sk, mm.n2[0]) + mm.d[1] * T(sk, mm.n2[1]);
    }
    vp_assume(r + (r - F[0]) == q);
    vp_assume(q + (r - F[1]) == r);
    cal.ext_par.x0 = 1; cal.ext_par.y0 = 2; cal.ext_par.z0 = z0;
    p[0] = 1; p[1] = 2 + r; p[2] = Z;
    f = multimed_r_nlay(&cal, &mm, p);
    vp_assert(f == 1, "without convergence the point is not shifted");
    vp_reach("end");
}
/* the point under the camera */
void h_under(void)
{
    vec3d p; double f;
    memset(&cal, 0, sizeof cal); memset(&mm, 0, sizeof mm);
    mm.nlay = 1; mm.n1 = vp_double("n1", 1, 2); mm.n2[0] = vp_double("n2", 1, 2); mm.n3 = vp_double("n3", 1, 2); mm.d[0] = vp_double("d", .1, 10);
    cal.ext_par.x0 = p[0] = vp_double("x0", -10, 10); cal.ext_par.y0 = p[1] = vp_double("y0", -10, 10); cal.ext_par.z0 = vp_double("z0", 20, 100);
    p[2] = vp_double("Z", -50, 10);
    f = multimed_r_nlay(&cal, &mm, p);
    vp_assert(f == 1, "on the axis nothing is shifted");
    vp_reach("end");
}
/* a table entry, where there is one, is used; else the iteration */
static double ent;
double vp_override_get_mmf_from_mmlut(Calibration *c, vec3d p) { return ent; }
void h_table(void)
{
    vec3d p; double f, lutd;
    memset(&cal, 0, sizeof cal); memset(&mm, 0, sizeof mm);
    mm.nlay = 1; mm.n1 = 1; mm.n2[0] = 1.5; mm.n3 = vp_double("n3", 1.2, 2); mm.d[0] = 5;
    cal.ext_par.z0 = 100; p[0] = 0; p[1] = 0; p[2] = vp_double("Z", -50, 10);
    cal.mmlut.data = &lutd; ent = vp_double("entry", 0, 3);
    f = multimed_r_nlay(&cal, &mm, p);
    if (ent > 0) { vp_assert(f == ent, "the look-up table is used inside of it"); vp_reach("table"); }
    else { vp_assert(f == 1, "outside of the look-up table the iteration is used"); vp_reach("iteration"); }
    vp_reach("end");
}
