/* C05: a ray through air, glass and water.  The image point, rotation and glass direction come from a list of rational
   configurations (or are symbolic in h_any), camera position, distances and refractive indices are symbolic. */
#include "vp.h"
#include "ray_tracing.h"
#ifndef KS
#define KS 0
#define KE 5
#endif
/* unit image directions, rotations and glass normals, all rational: start = R s */
static const int DIR[][4] = {{2, 3, -6, 7}, {-1, 2, -2, 3}, {4, 0, -3, 5}, {0, 0, -1, 1}, {-6, -2, -3, 7}, {0, -8, -15, 17}};
static const int ROT[][10] = {{1,0,0, 0,1,0, 0,0,1, 1}, {2,-1,2, 2,2,-1, -1,2,2, 3}, {3,0,4, 0,5,0, -4,0,3, 5},
                              {6,-3,2, 2,6,3, -3,-2,6, 7}, {0,-1,0, 1,0,0, 0,0,1, 1}, {1,0,0, 0,4,-3, 0,3,4, 5}};
static const int GL[][4] = {{0, 0, 1, 1}, {2, 1, 2, 3}, {-2, 3, 6, 7}, {4, 0, 3, 5}, {0, -3, 4, 5}, {1, 2, 2, 3}};
static double dot(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static double det(const double *a, const double *b, const double *c)
{ return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]); }
void h_ray(void)
{
    Calibration cal; mm_np mm; vec3d X, out, s, P, m, g, gv; double k, d, D, t, cs, x, y, mg, og; int i, j, c, conf;
    memset(&cal, 0, sizeof cal); memset(&mm, 0, sizeof mm);
    c = vp_pick(vp_int("configuration", KS, KE)); conf = c % 6;
    k = vp_double("scale", 1, 100); D = vp_pick(vp_int("glass distance", 1, 4)) * 20; d = vp_double("thickness", 0.5, 10);
    mm.nlay = vp_int("nlay", 1, 3); mm.d[0] = d; mm.d[1] = 4; mm.d[2] = 3; mm.n2[1] = 1.9; mm.n2[2] = 1.1;
#ifdef EQUAL
    mm.n1 = vp_double("n1", 1, 3); mm.n2[0] = mm.n1; mm.n3 = mm.n1;
#else
    mm.n1 = vp_double("n1", 1, 3); mm.n2[0] = vp_double("n2", 1, 3); mm.n3 = vp_double("n3", 1, 3);
#endif
    for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) cal.ext_par.dm[i][j] = (double)ROT[conf][3 * i + j] / ROT[conf][9];
    /* image point at the given direction; the camera constant is 6 (or 3, ...): one scale for all */
    x = k * DIR[c % 6][0]; y = k * DIR[c % 6][1]; cal.int_par.cc = -k * DIR[c % 6][2];
    for (i = 0; i < 3; i++) {
        s[i] = 0;
        for (j = 0; j < 3; j++) s[i] += (double)ROT[conf][3 * i + j] / ROT[conf][9] * DIR[c % 6][j] / DIR[c % 6][3];
        P[i] = vp_double("camera", -200, 200);
    }
    for (i = 0; i < 3; i++) { g[i] = (double)GL[c / 6][i] / GL[c / 6][3]; gv[i] = g[i] * D; }
    cs = dot(s, g);
    if (cs >= -0.05) return;                                       /* not towards the glass */
    cal.ext_par.x0 = P[0]; cal.ext_par.y0 = P[1]; cal.ext_par.z0 = P[2];
    cal.glass_par.vec_x = gv[0]; cal.glass_par.vec_y = gv[1]; cal.glass_par.vec_z = gv[2];
    vp_assume(dot(P, g) > D + d);                                  /* the camera is in air */
    vp_assume(mm.n1 * mm.n1 * (1 - cs * cs) < .99 * mm.n2[0] * mm.n2[0]);
    vp_assume(mm.n1 * mm.n1 * (1 - cs * cs) < .99 * mm.n3 * mm.n3);   /* no total reflection */
    ray_tracing(x, y, &cal, mm, X, out);
    og = dot(out, g);
    vp_assert(vp_close(dot(out, out), 1, 1e-6), "the direction in water is a unit vector");
    vp_assert(og < 0, "the ray goes into the water");
    vp_assert(vp_close(dot(X, g), D, 1e-6), "the crossing point is on the inner glass surface");
    vp_assert(vp_close(det(g, s, out), 0, 1e-6), "the ray in water is in the plane of incidence");
    vp_assert(dot(out, s) - og * cs >= -1e-9, "the ray in water continues to the same side");
    vp_assert(vp_close(mm.n3 * mm.n3 * (1 - og * og), mm.n1 * mm.n1 * (1 - cs * cs), 1e-6), "Snell's law between air and water");
    t = (D + d - dot(P, g)) / cs;
    for (i = 0; i < 3; i++) m[i] = X[i] - P[i] - s[i] * t;         /* the segment in glass */
    mg = dot(m, g);
    vp_assert(vp_close(mg, -d, 1e-6), "the ray enters the outer glass surface at the image ray");
    vp_assert(vp_close(det(g, s, m), 0, 1e-5), "the ray in glass is in the plane of incidence");
    vp_assert(dot(m, s) - mg * cs >= -1e-9, "the ray in glass continues to the same side");
    vp_assert(vp_close(mm.n2[0] * mm.n2[0] * (dot(m, m) - d * d), mm.n1 * mm.n1 * (1 - cs * cs) * dot(m, m), 1e-4), "Snell's law between air and glass");
#ifdef EQUAL
    for (i = 0; i < 3; i++) {
        vp_assert(vp_close(out[i], s[i], 1e-6), "equal indices: the direction is that of the pinhole ray");
        vp_assert(vp_close((X[i] - P[i]) * cs, s[i] * (D - dot(P, g)), 1e-4), "equal indices: the point is on the pinhole ray");
    }
#endif
    vp_reach("end");
}

/* any unit start direction (the image point is the principal point, the third column of the rotation is symbolic) */
#ifndef G0
#define G0 0
#endif
void h_any(void)
{
    Calibration cal; mm_np mm; vec3d X, out, s, P, m, g; double d, D, cs, mg, og; int i;
    memset(&cal, 0, sizeof cal); memset(&mm, 0, sizeof mm);
    D = 40; d = vp_double("thickness", .5, 10); mm.nlay = vp_int("nlay", 1, 3); mm.d[0] = d; mm.d[1] = 4; mm.d[2] = 3; mm.n2[1] = 1.9; mm.n2[2] = 1.1; mm.n1 = 1; mm.n2[0] = vp_double("n2", 1, 3); mm.n3 = vp_double("n3", 1, 3);
    for (i = 0; i < 3; i++) { s[i] = vp_double("s", -1, 1); cal.ext_par.dm[i][2] = -s[i]; P[i] = vp_double("camera", -200, 200); }
    vp_assume(dot(s, s) == 1);
    cal.int_par.cc = 5;
    for (i = 0; i < 3; i++) g[i] = (double)GL[G0][i] / GL[G0][3];
    cs = dot(s, g);
    vp_assume(cs < -0.05); vp_assume(dot(P, g) > D + d);
    cal.ext_par.x0 = P[0]; cal.ext_par.y0 = P[1]; cal.ext_par.z0 = P[2];
    cal.glass_par.vec_x = g[0] * D; cal.glass_par.vec_y = g[1] * D; cal.glass_par.vec_z = g[2] * D;
    ray_tracing(0, 0, &cal, mm, X, out);
    og = dot(out, g);
    vp_assert(vp_close(dot(out, out), 1, 1e-6), "the direction in water is a unit vector");
    vp_assert(og < 0, "the ray goes into the water");
    vp_assert(vp_close(dot(X, g), D, 1e-6), "the crossing point is on the inner glass surface");
    vp_assert(vp_close(det(g, s, out), 0, 1e-6), "the ray in water is in the plane of incidence");
    vp_assert(dot(out, s) - og * cs >= -1e-9, "the ray in water continues to the same side");
    vp_assert(vp_close(mm.n3 * mm.n3 * (1 - og * og), 1 - cs * cs, 1e-6), "Snell's law between air and water");
    vp_reach("end");
}
