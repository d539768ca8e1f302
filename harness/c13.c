/* C13: triangulation. */
#include "vp.h"
#include "orientation.h"
/* Two rays built around a known common perpendicular: foot points Q and Q + h (d1 x d2), vertices s and t back along the rays. */
void h_skew(void)
{
    static const double D2[4][3] = {{0, 0, 1}, {1, -2, .5}, {-.5, .25, -2}, {3, 1, 0}}, QQ[2][3] = {{0, 0, 0}, {10, -20, 5.5}};
    int k = vp_pick(vp_int("second direction", 0, 3)), m = vp_pick(vp_int("foot", 0, 1)), i;
    vec3d d1, d2, c, v1, v2, res; double s, t, h, dist, n2;
    for (i = 0; i < 3; i++) { d1[i] = vp_double("d1", -3, 3); d2[i] = D2[k][i]; }
    s = vp_double("s", -50, 50); t = vp_double("t", -50, 50); h = vp_double("h", -5, 5);
    c[0] = d1[1] * d2[2] - d1[2] * d2[1]; c[1] = d1[2] * d2[0] - d1[0] * d2[2]; c[2] = d1[0] * d2[1] - d1[1] * d2[0];
    n2 = c[0] * c[0] + c[1] * c[1] + c[2] * c[2];
    vp_assume(n2 > 0.01);
    for (i = 0; i < 3; i++) { v1[i] = QQ[m][i] - s * d1[i]; v2[i] = QQ[m][i] + h * c[i] - t * d2[i]; }
    dist = skew_midpoint(v1, d1, v2, d2, res);
    for (i = 0; i < 3; i++) vp_assert(vp_close(res[i], QQ[m][i] + .5 * h * c[i], 1e-6), "middle of the common perpendicular");
    vp_assert(dist >= 0 && vp_close(dist * dist, h * h * n2, 1e-5), "distance is the length of the common perpendicular");
    vp_reach("end");
}
static Calibration cals[4]; static Calibration *pc[4]; static mm_np mm;
static vec3d V[4], D[4] = {{0, 0, -1}, {.6, 0, -.8}, {0, .6, -.8}, {-.6, 0, -.8}}; static vec2d T[4]; static int traced[4], M = 4;
void vp_override_ray_tracing(double x, double y, Calibration *cal, mm_np m, vec3d X, vec3d a)
{
    int c, i;
    for (c = 0; c < M && cal != &cals[c]; c++);
    vp_assert(c < M, "rays are traced with the cameras given");
    vp_assert(x == T[c][0] && y == T[c][1] && m.nlay == 3, "rays start from the camera's own image point and use the media given");
    traced[c]++;
    for (i = 0; i < 3; i++) { X[i] = V[c][i]; a[i] = D[c][i]; }
}
void h_position(void)
{
    int n = vp_pick(vp_int("cameras", 2, 4)), c, p, i, used[4], nu = 0, np = 0; vec3d r, tot = {0, 0, 0}, res; double d, e = 0;
    mm.nlay = 3; M = n;
    for (c = 0; c < n; c++) {
        pc[c] = &cals[c];
        used[c] = vp_pick(vp_int("used", 0, 1)); nu += used[c];
        T[c][0] = used[c] ? vp_double("target x", -100, 100) : COORD_UNUSED;
        T[c][1] = used[c] ? vp_double("target y", -100, 100) : vp_double("stale y", -100, 100);
        for (i = 0; i < 3; i++) V[c][i] = used[c] ? vp_double("vertex", -200, 200) : 1e6 + c;
    }
    vp_assume(nu >= 2);
    d = point_position(T, n, &mm, pc, res);
    for (c = 0; c < n; c++) {
        vp_assert(used[c] || !traced[c], "unused cameras have no influence");
        for (p = c + 1; p < n; p++) if (used[c] && used[p]) {
            np++; e += skew_midpoint(V[c], D[c], V[p], D[p], r);
            for (i = 0; i < 3; i++) tot[i] += r[i];
        }
    }
    for (i = 0; i < 3; i++) vp_assert(vp_close(res[i] * np, tot[i], 1e-4), "mean over all camera pairs");
    vp_assert(vp_close(d * np, e, 1e-4), "mean distance over all camera pairs");
    vp_reach("end");
}
/* dumbbells: pairs of consecutive points */
static double PD[4]; static vec3d PX[4]; static int asked;
static vec2d tg[4][2]; static vec2d *tp[4];
double vp_override_point_position(vec2d targets[], int num_cams, mm_np *m, Calibration *c[], vec3d res)
{
    int i, k;
    for (k = 0; k < 4 && targets != tg[k]; k++);
    vp_assert(k < 4 && num_cams == 2, "points are triangulated from their own targets");
    asked++;
    for (i = 0; i < 3; i++) res[i] = PX[k][i];
    return PD[k];
}
void h_dumbbell(void)
{
    int k, i, L = vp_pick(vp_int("length", 1, 30)), n = 2 * vp_pick(vp_int("pairs", 1, 2)); double w = vp_double("weight", 0, 10), r, s = 0, e = 0, d;
    for (k = 0; k < 4; k++) {
        tp[k] = tg[k]; PD[k] = vp_double("distance", 0, 5);
        for (i = 0; i < 3; i++) PX[k][i] = (i < 2 && !(k & 1)) ? vp_double("point", -40, 40) : k;
    }
    r = weighted_dumbbell_precision(tp, n, 2, &mm, pc, L, w);
    for (k = 0; k < n; k++) s += PD[k];
    for (k = 0; k < n; k += 2) {
        d = sqrt((PX[k][0] - PX[k + 1][0]) * (PX[k][0] - PX[k + 1][0]) + (PX[k][1] - PX[k + 1][1]) * (PX[k][1] - PX[k + 1][1]) + 1);
        e += d > L ? 1 - L / d : 1 - d / L;
    }
    vp_assert(asked == n, "each point once");
    vp_assert(vp_close(r * n, s + 2 * w * e, 1e-4), "mean ray distance plus weighted mean relative length error");
    vp_reach("end");
}
