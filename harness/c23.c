/* C23: limits that every link has to satisfy. */
#include "vp.h"
#include "track.h"
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
void h_bounds(void)
{
    track_par b; vec3d p; int r;
    memset(&b, 0, sizeof b);
    b.dvxmin = vp_double("xmin", -20, 20); b.dvxmax = vp_double("xmax", -20, 20); b.dvymin = vp_double("ymin", -20, 20);
    b.dvymax = vp_double("ymax", -20, 20); b.dvzmin = vp_double("zmin", -20, 20); b.dvzmax = vp_double("zmax", -20, 20);
    p[0] = vp_double("x", -30, 30); p[1] = vp_double("y", -30, 30); p[2] = vp_double("z", -30, 30);
    r = pos3d_in_bounds(p, &b) != 0;
    vp_assert(r == (b.dvxmin < p[0] && p[0] < b.dvxmax && b.dvymin < p[1] && p[1] < b.dvymax && b.dvzmin < p[2] && p[2] < b.dvzmax),
              "in bounds exactly when every component is inside its own limits");
    if (r) vp_reach("inside"); else vp_reach("outside");
}
void h_predict(void)
{
    vec3d a, b, o; vec2d a2, b2, o2; int i;
    for (i = 0; i < 3; i++) { a[i] = vp_double("prev", -1e3, 1e3); b[i] = vp_double("curr", -1e3, 1e3); }
    for (i = 0; i < 2; i++) { a2[i] = a[i]; b2[i] = b[i]; }
    search_volume_center_moving(a, b, o);
    predict(a2, b2, o2);
    for (i = 0; i < 3; i++) vp_assert(vp_close(o[i], b[i] + (b[i] - a[i]), 1e-9), "linear extrapolation in space");
    for (i = 0; i < 2; i++) vp_assert(vp_close(o2[i], b[i] + (b[i] - a[i]), 1e-9), "linear extrapolation in the image");
    vp_reach("end");
}
static void displacements(vec3d s, vec3d p, vec3d c, vec3d v0, vec3d v1, double *angle, double *acc)
{
    int i;
    for (i = 0; i < 3; i++) { s[i] = vp_double("start", -10, 10); p[i] = s[i] + v0[i]; c[i] = s[i] + v1[i]; }
    *angle = 999; *acc = 999;
    angle_acc(s, p, c, angle, acc);
}
/* acceleration and range of the angle for any two displacements */
void h_acc(void)
{
    vec3d s, p, c, v0, v1; double angle, acc; int i;
    for (i = 0; i < 3; i++) { v0[i] = vp_double("v0", -10, 10); v1[i] = vp_double("v1", -10, 10); }
    displacements(s, p, c, v0, v1, &angle, &acc);
    vp_assert(vp_close(acc * acc, (v0[0] - v1[0]) * (v0[0] - v1[0]) + (v0[1] - v1[1]) * (v0[1] - v1[1]) + (v0[2] - v1[2]) * (v0[2] - v1[2]), 1e-6), "acceleration is the distance");
    vp_assert(acc >= 0, "acceleration is not negative");
    vp_assert(angle >= 0 && angle <= 200.000001, "angle between 0 and 200 gon");
    vp_reach("end");
}
/* parallel, opposite and zero displacements */
void h_parallel(void)
{
    vec3d s, p, c, v0, v1; double angle, acc, k = vp_double("factor", -10, 10); int i;
    for (i = 0; i < 3; i++) { v0[i] = vp_double("v0", -10, 10); v1[i] = k * v0[i]; }
    if (vp_pick(vp_int("swap", 0, 1))) { double t; for (i = 0; i < 3; i++) { t = v0[i]; v0[i] = v1[i]; v1[i] = t; } }
    displacements(s, p, c, v0, v1, &angle, &acc);
    vp_assert(angle == angle, "the angle is a number");
    if (k == 0 || (v0[0] == 0 && v0[1] == 0 && v0[2] == 0)) { vp_assert(angle == 0, "zero displacement: no angle"); vp_reach("zero"); }
    else if (k > 0) { vp_assert(angle >= -1e-5 && angle <= 1e-5, "parallel displacements: 0 gon"); vp_reach("parallel"); }
    else { vp_assert(angle >= 200 - 1e-5 && angle <= 200 + 1e-5, "opposite displacements: 200 gon"); vp_reach("opposite"); }
}
/* a known direction against any other in the same plane */
static const int U[4][3] = {{1, 0, 0}, {0, 4, 3}, {2, 1, -2}, {-3, 2, 6}}, W[4][3] = {{0, 0, 1}, {0, -3, 4}, {1, 2, 2}, {2, -6, 3}};
static const int NU[4] = {1, 5, 3, 7};
void h_angle(void)
{
    vec3d s, p, c, v0, v1; double angle, acc, k, a, b, cosr, ref; int i, q = vp_pick(vp_int("frame", 0, 3));
    /* v1 = length * (a, b) with a^2+b^2 = 1 in the orthonormal frame (U, W); a = (1-t^2)/(1+t^2) */
    double t = vp_double("t", -10, 10), len = vp_double("length", .01, 10);
    k = vp_double("k", .01, 10);
    a = (1 - t * t) / (1 + t * t); b = 2 * t / (1 + t * t);
    for (i = 0; i < 3; i++) { v0[i] = k * U[q][i]; v1[i] = len * (a * U[q][i] + b * W[q][i]); }
    displacements(s, p, c, v0, v1, &angle, &acc);
    cosr = a; if (cosr > 1) cosr = 1; if (cosr < -1) cosr = -1;
    ref = 200. / M_PI * acos(cosr);
    vp_assert(vp_close(angle, ref, 1e-4), "the angle between the displacements in gon");
    vp_reach("end");
}
