/* C08: epipolar segment and candidate search along it. */
#include "vp.h"
#include "epi.h"
#ifndef NT
#define NT 2
#endif
static control_par cp; static volume_par vp; static Calibration cal, cal2; static mm_np mm;
static coord_2d *crd; static target *pix; static candidate cand[MAXCAND + 2];
static double cal_dx, cal_dy;
/* a correction the harness knows: a shift taken from the parameters it is given */
void vp_override_correct_brown_affin(double x, double y, ap_52 ap, double *x1, double *y1) { *x1 = x + ap.k1; *y1 = y + ap.k2; }

static void setup(int n)
{
    int i;
    memset(&cp, 0, sizeof cp); memset(&vp, 0, sizeof vp); memset(&cal, 0, sizeof cal);
    cp.imx = 1000; cp.imy = 800; cp.pix_x = .1; cp.pix_y = .1;
    vp.cn = vp.cnx = vp.cny = vp.csumg = .25; vp.eps0 = 1;
    crd = malloc(n * sizeof(coord_2d) + 1); pix = malloc(n * sizeof(target) + 1);
    memset(pix, 0, n * sizeof(target) + 1);
    for (i = 0; i < n; i++) { pix[i].n = 8; pix[i].nx = 3; pix[i].ny = 4; pix[i].sumg = 100; pix[i].pnr = i; pix[i].tnr = -1; }
    for (i = 0; i < MAXCAND + 2; i++) cand[i].pnr = -7;
}
static void done(void) { free(crd); free(pix); vp_reach("end"); }
/* segments whose unit normal is rational: start, end, normal */
static const double SEG[9][6] = {{-5, 2, 9, 2, 0, 1}, {9, 2, -5, 2, 0, 1}, {-4, -3, 4, 3, 3, -4}, {4, 3, -4, -3, 3, -4},
                                 {-4, 3, 4, -3, 3, 4}, {-6, 8, 6, -8, 4, 3}, {2, 3, 2, 3, 0, 1}, {2, -5, 2, 5, 1, 0}, {2, 5, 2, -5, 1, 0}};
static double dist(const double *s, double x, double y)
{
    double l = s[4] == 0 || s[5] == 0 ? 1 : 5, d = (s[4] * (x - s[0]) + s[5] * (y - s[1])) / l;
    return fabs(d);
}
#define LO(a, b) ((a) < (b) ? (a) : (b))
#define HI(a, b) ((a) > (b) ? (a) : (b))
static int inband(const double *s, double x, double y, double e)
{
    return (x > LO(s[0], s[2]) - e) & (x < HI(s[0], s[2]) + e) & (y > LO(s[1], s[3]) - e) & (y < HI(s[1], s[3]) + e) & (dist(s, x, y) < e);
}
/* which targets, in which order, with which distance and index */
void h_band(void)
{
    int i, c, m = 0, k = vp_pick(vp_int("segment", 0, 8)), rev = NT > 1 ? vp_pick(vp_int("reversed", 0, 1)) : 0;
    double e = vp_double("tolerance", .01, 3), slack = k >= 6 ? 1e-6 : 0;
    const double *s = SEG[k];
    setup(NT); vp.eps0 = e;
    for (i = 0; i < NT; i++) {
        crd[i].pnr = rev ? NT - 1 - i : i;       /* the numbering of the targets is not the order of x */
        crd[i].x = vp_double("x", -15, 15); crd[i].y = vp_double("y", -15, 15);
        if (i) vp_assume(crd[i - 1].x <= crd[i].x);
        if (k >= 6) vp_assume((fabs(crd[i].x - 2) < e - slack) | (fabs(crd[i].x - 2) > e + slack));
        pix[crd[i].pnr].sumg = 100 + i;
    }
    c = find_candidate(crd, pix, NT, s[0], s[1], s[2], s[3], 8, 3, 4, 100, cand, &vp, &cp, &cal);
    for (i = 0; i < NT; i++) if (inband(s, crd[i].x, crd[i].y, e)) {
        double q = 100. / (100 + i);
        vp_assert(cand[m].pnr == i, "the targets in the band, each once, named by their place in the list");
        vp_assert(fabs(cand[m].tol - dist(s, crd[i].x, crd[i].y)) <= (k > 6 ? slack : 0) + (vp_is_symbolic() ? 0 : 1e-9), "the distance to the segment's line");
        vp_assert(vp_close(cand[m].corr, (4 * q + 4) * (200 + i), 1e-6), "the correlation of the target with that number");
        m++;
    }
    vp_assert(c == m, "as many candidates as targets in the band");
    vp_assert(cand[m].pnr == -7, "nothing behind the list");
    if (m == NT) vp_reach("all");
    done();
}
static const int REF[4] = {8, 3, 4, 100}, SIZ[4][3] = {{4, 8, 20}, {1, 3, 12}, {3, 4, 5}, {50, 100, 160}};
static double ratio(int a, int b) { return a < b ? (double)a / b : (double)b / a; }
void h_quality(void)
{
    int c, v[4], i, ok; double q[4];
    setup(1);
    for (i = 0; i < 4; i++) { v[i] = SIZ[i][vp_pick(vp_int("size", 0, 2))]; q[i] = ratio(v[i], REF[i]); }
    pix[0].n = v[0]; pix[0].nx = v[1]; pix[0].ny = v[2]; pix[0].sumg = v[3];
    vp.cn = vp_double("cn", 0, 1.25); vp.cnx = vp_double("cnx", 0, 1.25); vp.cny = vp_double("cny", 0, 1.25); vp.csumg = vp_double("csumg", 0, 1.25); vp.corrmin = 77;
    crd[0].pnr = 0; crd[0].x = 1; crd[0].y = 2.5;
    c = find_candidate(crd, pix, 1, -5, 2, 9, 2, REF[0], REF[1], REF[2], REF[3], cand, &vp, &cp, &cal);
    ok = (q[0] >= vp.cn) & (q[1] >= vp.cnx) & (q[2] >= vp.cny) & (q[3] > vp.csumg);
    vp_assert((c == 1) == ok && (c == 0) == !ok, "accepted exactly if every size and brightness ratio passes its limit");
    if (c == 1) {
        vp_assert(vp_close(cand[0].corr, (4 * q[3] + 2 * q[0] + q[1] + q[2]) * (v[3] + REF[3]), 1e-6), "the weighted ratios times the summed brightness");
        vp_reach("accepted");
    }
    done();
}
/* segments off the sensor */
void h_sensor(void)
{
    double xa, ya, xb, yb, x0, x1, y0, y1; int c;
    setup(0);
    cp.imx = vp_pick(vp_int("imx", 3, 4)); cp.imy = vp_pick(vp_int("imy", 2, 3));
    cp.pix_x = vp_double("pix_x", .01, 5); cp.pix_y = vp_double("pix_y", .01, 5);
    cal.int_par.xh = vp_double("xh", -3, 3); cal.int_par.yh = vp_double("yh", -3, 3);
    cal.added_par.k1 = vp_double("k1", -1, 1); cal.added_par.k2 = vp_double("k2", -1, 1);
    xa = vp_double("xa", -30, 30); xb = vp_double("xb", -30, 30); ya = vp_double("ya", -30, 30); yb = vp_double("yb", -30, 30);
    vp_assume((xa - xb > .001) | (xb - xa > .001));
    c = find_candidate(crd, pix, 0, xa, ya, xb, yb, 8, 3, 4, 100, cand, &vp, &cp, &cal);
    x1 = cp.pix_x * cp.imx / 2 - cal.int_par.xh + cal.added_par.k1; x0 = -cp.pix_x * cp.imx / 2 - cal.int_par.xh + cal.added_par.k1;
    y1 = cp.pix_y * cp.imy / 2 - cal.int_par.yh + cal.added_par.k2; y0 = -cp.pix_y * cp.imy / 2 - cal.int_par.yh + cal.added_par.k2;
    if ((HI(xa, xb) <= x0) | (LO(xa, xb) >= x1) | (HI(ya, yb) <= y0) | (LO(ya, yb) >= y1)) {
        vp_assert(c == -1, "a segment beside the sensor is rejected"); vp_reach("rejected");
    } else vp_assert(c == 0, "a segment that meets the sensor's range is searched");
    done();
}
/* more qualifying targets than the list holds */
void h_full(void)
{
    int i, n = vp_pick(vp_int("targets", MAXCAND - 1, MAXCAND + 2)), c;
    double e = vp_double("tolerance", .5, 2);
    setup(n); vp.eps0 = e;
    for (i = 0; i < n; i++) { crd[i].pnr = i; crd[i].x = i * .05 - 5; crd[i].y = 2; }
    c = find_candidate(crd, pix, n, -5, 2, 9, 2, 8, 3, 4, 100, cand, &vp, &cp, &cal);
    vp_assert(c == (n < MAXCAND ? n : MAXCAND), "the list is filled up to its capacity");
    for (i = 0; i < c; i++) vp_assert(cand[i].pnr == i, "each once");
    vp_assert(cand[MAXCAND].pnr == -7 && cand[c].pnr == -7, "nothing behind the list");
    done();
}
#ifndef NLEN
#define NLEN 2
#endif
void h_long(void)
{
    static const int LEN[10] = {8190, 1000, 31, 254, 63, 16382, 4095, 1023, 16384, 20000};
    int i, n = LEN[vp_pick(vp_int("length", 0, NLEN))], q, c, part = vp_pick(vp_int("part", 0, 8));
    q = (int)((long)n * part / 8); if (q >= n) q = n - 1;
    q += vp_pick(vp_int("offset", -1, 1)); if (q < 0) q = 0; if (q >= n) q = n - 1;
    setup(n); cp.imx = 1000000;
    for (i = 0; i < n; i++) { crd[i].pnr = i; crd[i].x = i; crd[i].y = 2; }
    vp.eps0 = vp_double("tolerance", .3, .7); c = vp_pick(vp_int("end", 0, 2));
    c = find_candidate(crd, pix, n, q, 2, q + .25, 2, 8, 3, 4, 100, cand, &vp, &cp, &cal);
    vp_assert(c == 1 && cand[0].pnr == q, "the only target in the band is found, wherever it is in the list");
    vp_assert(cand[1].pnr == -7, "nothing else");
    vp.eps0 = 2.5;
    c = find_candidate(crd, pix, n, q, 2, q + 40.25, 2, 8, 3, 4, 100, cand, &vp, &cp, &cal);
    vp_assert(c == (n - 1 < q + 42 ? n - 1 : q + 42) - (q - 2 < 0 ? 0 : q - 2) + 1, "all targets along a long segment");
    vp_assert(cand[0].pnr == (q - 2 < 0 ? 0 : q - 2), "from the first");
    done();
}
/* the segment: images of the ray at the near and the far end of the volume */
static vec3d pos0, dir0, seen[2]; static double img[4], px, py; static int rays, calls; static double dist_seen;
void vp_override_ray_tracing(double x, double y, Calibration *c, mm_np m, vec3d X, vec3d a)
{
    int i;
    vp_assert(x == px && y == py && c == &cal, "the ray of the given point of the first camera");
    vp_assert(m.nlay == mm.nlay && m.n1 == mm.n1 && m.n3 == mm.n3 && m.n2[0] == mm.n2[0] && m.d[0] == mm.d[0], "in the given media");
    for (i = 0; i < 3; i++) { X[i] = pos0[i]; a[i] = dir0[i]; }
    rays++;
}
void vp_override_flat_image_coord(vec3d p, Calibration *c, mm_np *m, double *x, double *y)
{
    int i;
    vp_assert(c == &cal2 && m == &mm, "projected into the second camera");
    vp_assert(calls < 2, "two projections");
    for (i = 0; i < 3; i++) seen[calls][i] = p[i];
    *x = img[calls * 2]; *y = img[calls * 2 + 1];
    calls++;
}
static const double DIR[4][3] = {{0, 0, -1}, {.6, 0, -.8}, {.36, -.48, -.8}, {-2. / 3, 1. / 3, -2. / 3}};
void h_segment(void)
{
    int i, flat = vp_pick(vp_int("flat", 0, 1)), k = vp_pick(vp_int("direction", 0, 3));
    double x0, y0, x1, y1, z[2], w; vec3d out;
    memset(&mm, 0, sizeof mm); memset(&vp, 0, sizeof vp); memset(&cal, 0, sizeof cal);
    mm.nlay = 1; mm.n1 = vp_double("n1", 1, 2); mm.n3 = vp_double("n3", 1, 2); mm.n2[0] = vp_double("n2", 1, 2); mm.d[0] = vp_double("d", 0, 9);
    px = vp_double("px", -10, 10); py = vp_double("py", -10, 10);
    for (i = 0; i < 3; i++) { pos0[i] = vp_double("pos", -50, 50); dir0[i] = DIR[k][i]; }
    for (i = 0; i < 4; i++) img[i] = vp_double("image", -10, 10);
    vp.X_lay[0] = -40 + 10 * vp_pick(vp_int("X0", 0, 1)); vp.X_lay[1] = 30 + 20 * vp_pick(vp_int("X1", 0, 1));
    vp.Zmin_lay[0] = vp_double("Zmin0", -50, 0); vp.Zmin_lay[1] = vp_double("Zmin1", -50, 0);
    vp.Zmax_lay[0] = vp_double("Zmax0", 0, 50); vp.Zmax_lay[1] = vp_double("Zmax1", 0, 50);
    w = (pos0[0] - vp.X_lay[0]) / (vp.X_lay[1] - vp.X_lay[0]);
    z[0] = vp.Zmin_lay[0] * (1 - w) + vp.Zmin_lay[1] * w; z[1] = vp.Zmax_lay[0] * (1 - w) + vp.Zmax_lay[1] * w;
    rays = calls = 0;
    if (flat) {
        epi_mm_2D(px, py, &cal, &mm, &vp, out);
        vp_assert(vp_close(out[2], (z[0] + z[1]) / 2, 1e-6), "half-way between the ends of the volume");
        vp_assert(vp_close(out[0], pos0[0] + dir0[0] / dir0[2] * (out[2] - pos0[2]), 1e-6) &&
                  vp_close(out[1], pos0[1] + dir0[1] / dir0[2] * (out[2] - pos0[2]), 1e-6), "on the ray");
    } else {
        x0 = y0 = x1 = y1 = 99;
        epi_mm(px, py, &cal, &cal2, &mm, &vp, &x0, &y0, &x1, &y1);
        vp_assert(calls == 2, "two ends");
        for (i = 0; i < 2; i++) {
            double *p = seen[i];
            vp_assert(vp_close(p[2], z[i], 1e-6), "near end, then far end of the volume at the ray's place");
            vp_assert(vp_close(p[0], pos0[0] + dir0[0] / dir0[2] * (p[2] - pos0[2]), 1e-6) &&
                      vp_close(p[1], pos0[1] + dir0[1] / dir0[2] * (p[2] - pos0[2]), 1e-6), "the end is on the ray");
        }
        vp_assert(x0 == img[0] && y0 == img[1] && x1 == img[2] && y1 == img[3], "the segment joins the images of its ends");
    }
    vp_assert(rays == 1, "one ray");
    vp_reach("end");
}
