/* C27: bundle adjustment.  The projection, the derivatives and the solution of the normal equations are stand-ins: the
   correction of every iteration is an arbitrary vector. */
#include "vp.h"
#include "orientation.h"
#include "lsqadj.h"
#ifndef NFIX
#define NFIX 1
#endif
#ifndef BASE
#define BASE 0
#endif
static Calibration cal, old; static control_par cp; static mm_np mm;
static vec3d fix[12]; static target pix[12]; static orient_par fl; static double sig[20];
static double corr[3][19]; static int iter, used_iter, rows, forever, numbers_seen;
static double obs[64], row6[64][19]; static int keep;
static unsigned *flag_at(int k)
{
    unsigned *f[] = {&fl.ccflag, &fl.xhflag, &fl.yhflag, &fl.k1flag, &fl.k2flag, &fl.k3flag, &fl.p1flag, &fl.p2flag, &fl.scxflag, &fl.sheflag, &fl.interfflag};
    return f[k];
}
static double *par_at(Calibration *c, int k)
{
    double *p[] = {&c->ext_par.x0, &c->ext_par.y0, &c->ext_par.z0, &c->ext_par.omega, &c->ext_par.phi, &c->ext_par.kappa,
                   &c->int_par.cc, &c->int_par.xh, &c->int_par.yh, &c->added_par.k1, &c->added_par.k2, &c->added_par.k3, &c->added_par.p1, &c->added_par.p2,
                   &c->added_par.scx, &c->added_par.she, &c->glass_par.vec_x, &c->glass_par.vec_y, &c->glass_par.vec_z};
    return p[k];
}
/* ---- stand-ins */
static double px[12], py[12], gx[3], ca, cb; static int imgs[12];
static int which(vec3d p) { return (int)p[0]; }
void vp_override_img_coord(vec3d p, Calibration *c, mm_np *m, double *x, double *y)
{
    int i = which(p);
    imgs[i]++;
    *x = px[i] + ca * (c->int_par.cc - old.int_par.cc) + gx[0] * (c->glass_par.vec_x - old.glass_par.vec_x) + gx[1] * (c->glass_par.vec_y - old.glass_par.vec_y) + gx[2] * (c->glass_par.vec_z - old.glass_par.vec_z);
    *y = py[i] + cb * (c->int_par.cc - old.int_par.cc);
}
void vp_override_num_deriv_exterior(Calibration *c, control_par *q, double dpos, double dang, vec3d pos, double x[6], double y[6])
{
    int k, i = which(pos);
    for (k = 0; k < 6; k++) { x[k] = 10 * i + k + 1; y[k] = 10 * i + k + 201; }
}
void vp_override_ata(double *a, double *r, int m, int n, int nl) { int i, j; for (i = 0; i < n; i++) for (j = 0; j < n; j++) r[i * nl + j] = 0; }
void vp_override_matinv(double *a, int n, int nl) { int i, j; for (i = 0; i < n; i++) for (j = 0; j < n; j++) a[i * nl + j] = i == j; }
void vp_override_atl(double *u, double *a, double *l, int m, int n, int nl)
{
    int i, j;
    for (i = 0; i < n; i++) u[i] = iter < 2 ? corr[iter][i] : forever ? 1 : 0;
    rows = m; numbers_seen = n;
    if (keep) for (i = 0; i < m && i < 64; i++) { obs[i] = l[i]; for (j = 0; j < n; j++) row6[i][j] = a[i * nl + j]; }
    iter++;
}
static void setup(int np, int second)
{
    int i;
    memset(&cal, 0, sizeof cal); memset(&cp, 0, sizeof cp); memset(&mm, 0, sizeof mm); memset(&fl, 0, sizeof fl); memset(pix, 0, sizeof pix);
    cp.imx = 100; cp.imy = 80; cp.pix_x = cp.pix_y = .5; cp.mm = &mm; cp.num_cams = 1; mm.nlay = 1; mm.n1 = mm.n2[0] = mm.n3 = 1; mm.d[0] = 1;
    for (i = 0; i < 19; i++) {
        *par_at(&cal, i) = i + 1;
        corr[0][i] = vp_double("correction", -2, 2); corr[1][i] = second ? vp_double("correction2", -.00002, .00002) : 0;
    }
    cal.glass_par.vec_x = 2; cal.glass_par.vec_y = 3; cal.glass_par.vec_z = 6; cal.ext_par.omega = cal.ext_par.phi = cal.ext_par.kappa = 0;
    rotation_matrix(&cal.ext_par);
    for (i = 0; i < np; i++) { fix[i][0] = i; fix[i][1] = 2; fix[i][2] = 3; pix[i].pnr = i; pix[i].x = 50 + 10 * i; pix[i].y = 40; px[i] = i - 1; py[i] = i + 1; }
    old = cal; iter = 0; keep = 0; forever = 0; ca = cb = 0; gx[0] = gx[1] = gx[2] = 0;
}
/* every combination of flags (bit 0..10) given by the range of the mask */
#ifndef M0
#define M0 0
#define M1 2047
#endif
void h_flags(void)
{
    double *r, c, sum[19], dg, dd; int i, k, mask, live, small = 1;
    setup(NFIX, 1);
#ifdef TOGGLE
    mask = TOGGLE ^ (1 << vp_pick(vp_int("flag", 0, 11)));
#else
    mask = vp_pick(vp_int("flags", M0, M1));
#endif
    for (k = 0; k < 11; k++) *flag_at(k) = mask >> k & 1;
    live = vp_live_bytes();
    r = orient(&cal, &cp, NFIX, fix, pix, &fl, sig);
    vp_assert(r != NULL, "a run whose corrections vanish converges");
    for (k = 0; k < 16; k++) small &= (corr[0][k] <= 1e-5) & (corr[0][k] >= -1e-5);
    if (mask >> 10 & 1) for (k = 16; k < 18; k++) small &= (corr[0][k] <= 1e-5) & (corr[0][k] >= -1e-5);
    for (k = 0; k < 16; k++) {
        c = *par_at(&cal, k);
        if (k < 6 || mask >> (k - 6) & 1) {
            vp_assert(small | (vp_close(c, *par_at(&old, k) + corr[0][k] + corr[1][k], 1e-9)), "a parameter to be changed gets all corrections");
            vp_assert(!small | (vp_close(c, *par_at(&old, k) + corr[0][k], 1e-9)), "a parameter to be changed gets the correction");
        } else vp_assert(c == *par_at(&old, k), "a parameter whose flag is not set keeps its value");
    }
    if (mask >> 10 & 1) {
        dg = dd = 0;
        for (k = 16; k < 19; k++) { dg += (*par_at(&cal, k) - *par_at(&old, k)) * *par_at(&old, k); }
        vp_assert(vp_close(dg, 0, 1e-6), "the glass is moved perpendicular to its normal");
        vp_reach("interface");
    } else
        for (k = 16; k < 19; k++) vp_assert(*par_at(&cal, k) == *par_at(&old, k), "the glass is kept unless it is to be changed");
    rotation_matrix(&old.ext_par);
    free(r);
    vp_assert(vp_live_bytes() == live, "nothing is leaked");
    vp_reach("end");
}
/* the glass correction is a rotation of the normal by orthogonal amounts */
void h_glass(void)
{
    double *r, dd = 0, d; int k, i, j;
    setup(NFIX, 1);
    for (k = 0; k < 16; k++) corr[0][k] = corr[1][k] = 0;
    vp_assume(corr[0][16] > .1);
    for (k = 16; k < 18; k++) corr[1][k] = 0;
    corr[1][16] = vp_double("further", -1, 1); corr[1][17] = .5;
    fl.interfflag = 1;
    i = vp_pick(vp_int("glass x", -2, 2)); j = vp_pick(vp_int("glass y", -2, 2));
    cal.glass_par.vec_x = old.glass_par.vec_x = i; cal.glass_par.vec_y = old.glass_par.vec_y = j; cal.glass_par.vec_z = old.glass_par.vec_z = 5;
    r = orient(&cal, &cp, NFIX, fix, pix, &fl, sig);
    for (k = 16; k < 19; k++) { d = *par_at(&cal, k) - *par_at(&old, k); dd += d * d; }
    vp_assert(vp_close(dd, (i * i + j * j + 25) * ((corr[0][16] + corr[1][16]) * (corr[0][16] + corr[1][16]) + (corr[0][17] + .5) * (corr[0][17] + .5)), 1e-6), "the glass normal is turned by all corrections, in perpendicular directions");
    free(r);
    vp_reach("end");
}
/* no convergence */
void h_fail(void)
{
    double *r; int k, live;
    setup(NFIX, 0);
    for (k = 0; k < 11; k++) *flag_at(k) = 1;
    for (k = 0; k < 18; k++) vp_assume(corr[0][k] > .1);
    forever = 1; corr[1][0] = 5;
    live = vp_live_bytes();
    r = orient(&cal, &cp, NFIX, fix, pix, &fl, sig);
    vp_assert(r == NULL, "without convergence there is no result");
    for (k = 0; k < 19; k++) vp_assert(*par_at(&cal, k) == *par_at(&old, k), "without convergence the calibration is untouched");
    for (k = 0; k < 9; k++) vp_assert(cal.ext_par.dm[k / 3][k % 3] == old.ext_par.dm[k / 3][k % 3], "without convergence the rotation is untouched");
    vp_assert(vp_live_bytes() == live, "nothing is leaked");
    vp_reach("end");
}
/* which points have influence, with which observation, and how strongly the fixed parameters are held */
void h_rows(void)
{
    double *r, xm, ym; int i, j, k, n = 0, flags, use, ok = 1, P;
    setup(NFIX, 0);
    for (k = 0; k < 19; k++) corr[0][k] = 0;
    keep = 1; ca = vp_double("dx/dcc", -2, 2); cb = vp_double("dy/dcc", -2, 2);
    fl.useflag = use = vp_pick(vp_int("useflag", 0, 3));
    for (i = 0; i < NFIX; i++) {
        pix[i].x = vp_double("x", 0, 100); pix[i].y = vp_double("y", 0, 80); px[i] = vp_double("px", -30, 30); py[i] = vp_double("py", -30, 30);
        k = vp_pick(vp_int("pnr", 0, 2)); pix[i].pnr = k == 0 ? i : k == 1 ? -999 : i + 1;
    }
#ifdef ONEFLAG
    flags = vp_pick(vp_int("flag", 0, 10));
#else
    flags = use;
#endif
    for (k = 0; k < 10; k++) *flag_at(k) = k == flags;
    memset(imgs, 0, sizeof imgs);
    r = orient(&cal, &cp, NFIX, fix, pix, &fl, sig);
    for (i = 0; i < NFIX; i++) {
        int in = pix[i].pnr == i && (use == 0 || (use == 1 && i % 2) || (use == 2 && i % 2 == 0) || (use == 3 && i % 3));
        if (!in) { vp_assert(imgs[i] == 0, "points without observation, and those not to be used, are not looked at"); continue; }
        xm = (pix[i].x - 50) * .5; ym = (40 - pix[i].y) * .5;
        vp_assert(vp_close(obs[n], xm - px[i], 1e-6) & vp_close(obs[n + 1], ym - py[i], 1e-6), "the misclosure is observation minus projection");
        for (k = 0; k < 6; k++) ok &= (row6[n][k] == 10 * i + k + 1) & (row6[n + 1][k] == 10 * i + k + 201);
        vp_assert(vp_close(row6[n][6], ca, 1e-3) & vp_close(row6[n + 1][6], cb, 1e-3), "the derivative over the camera constant");
        n += 2;
    }
    vp_assert(ok, "the design matrix has the exterior derivatives of the point");
    vp_assert(rows == n + IDT, "two rows for each used point and one for each interior parameter");
    for (k = 0; k < 10 && n + k < 64; k++) {
        for (j = 0, P = 1; j < 16; j++) if (j != 6 + k) P &= row6[n + k][j] == 0;
        vp_assert(P, "the row of an interior parameter concerns it alone");
        vp_assert(obs[n + k] == 0, "the initial guess is its own observation");
        if (k == flags) vp_assert(row6[n + k][6 + k] == 1, "a parameter to be changed is free");
        else vp_assert(row6[n + k][6 + k] >= 1e9, "a parameter not to be changed is held");
    }
    for (i = 0; i < n; i++) vp_assert(r[i] == -obs[i], "the residuals without correction are the negative misclosures");
    free(r);
    vp_reach("end");
}
/* derivatives over the interior and distortion parameters for a camera without distortion */
void h_columns(void)
{
    static const int D[][3] = {{3, 4, 5}, {-5, 12, 13}, {8, -15, 17}, {0, -1, 1}};
    double *r, a, x, y, rr, w[10][2]; int i, k;
    setup(1, 0);
    for (i = 0; i < 19; i++) corr[0][i] = 0;
    for (i = 9; i < 16; i++) *par_at(&cal, i) = *par_at(&old, i) = i == 14;
    for (i = 0; i < 11; i++) *flag_at(i) = 1;
    keep = 1; k = vp_pick(vp_int("direction", 0, 3)); a = vp_double("radius", 0, 2);
    ca = vp_double("dx/dcc", -2, 2); cb = vp_double("dy/dcc", -2, 2);
    x = px[0] = D[k][0] * a; y = py[0] = D[k][1] * a; rr = D[k][2] * D[k][2] * a * a;
    r = orient(&cal, &cp, 1, fix, pix, &fl, sig);
    for (k = 0; k < 10; k++) w[k][0] = w[k][1] = 0;
    w[0][0] = ca; w[0][1] = cb; w[1][0] = w[2][1] = 1;
    w[3][0] = x * rr; w[3][1] = y * rr; w[4][0] = x * rr * rr; w[4][1] = y * rr * rr; w[5][0] = x * rr * rr * rr; w[5][1] = y * rr * rr * rr;
    w[6][0] = rr + 2 * x * x; w[6][1] = 2 * x * y; w[7][0] = 2 * x * y; w[7][1] = rr + 2 * y * y; w[8][0] = x; w[9][0] = -y;
    for (k = 0; k < 10; k++)
        vp_assert(vp_close(row6[0][6 + k], w[k][0], 1e-3) & vp_close(row6[1][6 + k], w[k][1], 1e-3), "the derivatives over cc, xh, yh, k1, k2, k3, p1, p2, scx and she, in order");
    free(r);
    vp_reach("end");
}
/* derivatives over the glass normal: the projection depends on its length only, so there is none */
void h_glass_rows(void)
{
    double *r; int i;
    setup(1, 0);
    for (i = 0; i < 19; i++) corr[0][i] = 0;
    keep = 1; fl.interfflag = 1;
    gx[0] = cal.glass_par.vec_x = old.glass_par.vec_x = 2; gx[1] = cal.glass_par.vec_y = old.glass_par.vec_y = vp_pick(vp_int("glass y", -3, 3)); gx[2] = cal.glass_par.vec_z = old.glass_par.vec_z = 6;
    r = orient(&cal, &cp, 1, fix, pix, &fl, sig);
    vp_assert(numbers_seen == 18, "the glass correction has two unknowns");
    vp_assert(vp_close(row6[0][16], 0, 1e-6) & vp_close(row6[0][17], 0, 1e-6), "the glass directions are perpendicular to the normal");
    free(r);
    vp_reach("end");
}
/* exact observations change nothing: the real right-hand side */
void h_exact(void)
{
    double *r; int i, k;
    setup(NFIX, 0);
    i = vp_pick(vp_int("flags", 0, 12));
    for (k = 0; k < 11; k++) *flag_at(k) = i == 12 || k == i;
    for (i = 0; i < NFIX; i++) {
        pix[i].x = vp_double("x", 0, 100); pix[i].y = vp_double("y", 0, 80);
        px[i] = (pix[i].x - 50) * .5; py[i] = (40 - pix[i].y) * .5;
    }
    cal.added_par.k1 = old.added_par.k1 = .001; cal.added_par.p2 = old.added_par.p2 = -.002; cal.added_par.she = old.added_par.she = 0; cal.added_par.scx = old.added_par.scx = 1;
    cal.added_par.k2 = old.added_par.k2 = cal.added_par.k3 = old.added_par.k3 = 0; cal.added_par.p1 = old.added_par.p1 = 0;
    r = orient(&cal, &cp, NFIX, fix, pix, &fl, sig);
    vp_assert(r != NULL, "exact observations: the adjustment converges");
    for (k = 0; k < 19; k++) vp_assert(vp_close(*par_at(&cal, k), *par_at(&old, k), 1e-9), "exact observations change nothing");
    if (r) for (i = 0; i < 2 * NFIX + IDT; i++) vp_assert(vp_close(r[i], 0, 1e-9), "exact observations leave no residual");
    free(r);
    vp_reach("end");
}
/* ---- raw orientation */
void h_raw(void)
{
    int i, k, n, ok, big, live; double s;
    n = vp_pick(vp_int("points", 1, 12));
    setup(n, 0);
    for (k = 0; k < 6; k++) corr[1][k] = vp_double("second", -.2, .2);
    keep = 1;
    for (i = 0; i < n; i++) pix[i].pnr = -999;
    live = vp_live_bytes();
    ok = raw_orient(&cal, &cp, n, fix, pix);
    vp_assert(ok == 1, "corrections that vanish: convergence");
    big = 0; for (k = 0; k < 6; k++) big |= (corr[0][k] > .1) | (corr[0][k] < -.1);
    for (k = 0; k < 6; k++) {
        s = *par_at(&cal, k) - *par_at(&old, k) - corr[0][k];
        vp_assert(big | vp_close(s, 0, 1e-9), "the exterior parameters get the correction");
        vp_assert(!big | vp_close(s, corr[1][k], 1e-9), "the exterior parameters get all corrections");
    }
    for (k = 6; k < 9; k++) vp_assert(*par_at(&cal, k) == *par_at(&old, k), "raw orientation keeps the interior parameters");
    for (k = 9; k < 16; k++) vp_assert(*par_at(&cal, k) == (k == 14), "raw orientation works without distortion");
    for (k = 16; k < 19; k++) vp_assert(*par_at(&cal, k) == *par_at(&old, k), "raw orientation keeps the glass");
    vp_assert(rows == 2 * n, "two observations for each point");
    for (i = 0; i < n; i++) {
        vp_assert(vp_close(obs[2 * i], (pix[i].x - 50) * .5 - px[i], 1e-9) & vp_close(obs[2 * i + 1], (40 - pix[i].y) * .5 - py[i], 1e-9), "misclosures");
        vp_assert((row6[2 * i][0] == 10 * i + 1) & (row6[2 * i + 1][5] == 10 * i + 206), "derivatives");
    }
    vp_assert(vp_live_bytes() == live, "nothing is leaked");
    vp_reach("end");
}
void h_raw_fail(void)
{
    int k, ok;
    setup(4, 0);
    forever = 1;
    corr[1][2] = vp_double("second", .11, 2);
    vp_assume(corr[0][3] < -.1);
    ok = raw_orient(&cal, &cp, 4, fix, pix);
    vp_assert(ok == 0, "corrections that do not vanish: failure is reported");
    for (k = 6; k < 9; k++) vp_assert(*par_at(&cal, k) == *par_at(&old, k), "raw orientation keeps the interior parameters");
    vp_reach("end");
}
