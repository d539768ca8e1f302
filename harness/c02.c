/* C02: Brown distortion with affine scale/shear, and its inverse. */
#include "vp.h"
#include "trafo.h"
static Calibration cal;
static void params(int which)
{
    ap_52 *a = &cal.added_par;
    memset(&cal, 0, sizeof cal);
    a->scx = 1;
    cal.int_par.xh = vp_double("xh", -10, 10); cal.int_par.yh = vp_double("yh", -10, 10); cal.int_par.cc = 77;
    if (which & 1) { a->k1 = vp_double("k1", -.1, .1); a->k2 = vp_double("k2", -.1, .1); a->k3 = vp_double("k3", -.1, .1); }
    if (which & 2) { a->p1 = vp_double("p1", -.1, .1); a->p2 = vp_double("p2", -.1, .1); }
    if (which & 4) { a->scx = vp_double("scx", .5, 2); a->she = vp_double("she", -.5, .5); vp_assume(cos(a->she) > .5); }
}
static void ref_forward(double fx, double fy, Calibration *c, double *ox, double *oy)
{
    ap_52 a = c->added_par;
    double x = fx + c->int_par.xh, y = fy + c->int_par.yh, r = sqrt(x * x + y * y), R = a.k1 * r * r + a.k2 * r * r * r * r + a.k3 * r * r * r * r * r * r;
    double xd = x + x * R + a.p1 * (r * r + 2 * x * x) + 2 * a.p2 * x * y;
    double yd = y + y * R + a.p2 * (r * r + 2 * y * y) + 2 * a.p1 * x * y;
    *ox = a.scx * xd - sin(a.she) * yd;
    *oy = cos(a.she) * yd;
}
void h_formula(void)
{
    double x, y, dx = 1234.5, dy = 1234.5, ex, ey;
    params(7);
    x = vp_double("x", -20, 20); y = vp_double("y", -20, 20);
    ref_forward(x, y, &cal, &ex, &ey);
    flat_to_dist(x, y, &cal, &dx, &dy);
    vp_assert(vp_close(dx, ex, 1e-6 * (1 + fabs(ex))), "distorted x follows the formula");
    vp_assert(vp_close(dy, ey, 1e-6 * (1 + fabs(ey))), "distorted y follows the formula");
    dx = x; dy = y;
    flat_to_dist(dx, dy, &cal, &dx, &dy);
    vp_assert(vp_close(dx, ex, 1e-6 * (1 + fabs(ex))) && vp_close(dy, ey, 1e-6 * (1 + fabs(ey))), "in place");
    vp_reach("end");
}
void h_formula_center(void)
{
    double dx = 1234.5, dy = 1234.5, fx = 99, fy = 99;
    params(7);
    flat_to_dist(-cal.int_par.xh, -cal.int_par.yh, &cal, &dx, &dy);
    vp_assert(dx == 0 && dy == 0, "the image centre is not displaced");
    dist_to_flat(0, 0, &cal, &fx, &fy, 1e-5);
    vp_assert(vp_close(fx, -cal.int_par.xh, 1e-9) && vp_close(fy, -cal.int_par.yh, 1e-9), "the image centre corrects to the principal point shift");
    correct_brown_affin(0, 0, cal.added_par, &fx, &fy);
    vp_assert(fx == 0 && fy == 0, "the centre corrects to itself");
    vp_reach("end");
}
/* no distortion, only shift: exact both ways, any tolerance */
void h_no_distortion(void)
{
    double x, y, dx, dy, fx, fy, tol;
    params(0);
    x = vp_double("x", -20, 20); y = vp_double("y", -20, 20); tol = vp_double("tol", 0, 1);
    flat_to_dist(x, y, &cal, &dx, &dy);
    vp_assert(vp_close(dx, x + cal.int_par.xh, 1e-9) && vp_close(dy, y + cal.int_par.yh, 1e-9), "only the shift");
    dist_to_flat(dx, dy, &cal, &fx, &fy, tol);
    vp_assert(vp_close(fx, x, 1e-9) && vp_close(fy, y, 1e-9), "flat -> distorted -> flat is exact");
    dist_to_flat(x, y, &cal, &fx, &fy, tol);
    flat_to_dist(fx, fy, &cal, &dx, &dy);
    vp_assert(vp_close(dx, x, 1e-9) && vp_close(dy, y, 1e-9), "distorted -> flat -> distorted is exact");
    vp_reach("end");
}
void h_affine_only(void)
{
    double x, y, fx, fy, dx, dy;
    params(4);
    cal.int_par.xh = cal.int_par.yh = 0;
    x = vp_double("x", -20, 20); y = vp_double("y", -20, 20);
    flat_to_dist(x, y, &cal, &dx, &dy);
    dist_to_flat(dx, dy, &cal, &fx, &fy, 1000);
    vp_assert(vp_close(fx, x, 1e-6) && vp_close(fy, y, 1e-6), "scale and shear are undone exactly");
    vp_reach("end");
}
/* Points the model maps onto themselves: the parameters are any with distort(x,y) == (x,y).  The correction starts its
   iteration there, so it must return exactly that point: decides every coefficient of the inverse formula. */
static const int PX[8] = {3, -4, 5, 0, 8, -6, -12, 7}, PY[8] = {4, 3, -12, 2, 0, -8, 5, 24};
static const double SN[4] = {0, 3, -5, 0}, CS[4] = {1, 4, 12, 1}, DN[4] = {1, 5, 13, 1}, SC[4] = {1, 1.25, .75, .5};
#ifndef FPTOL
#define FPTOL 1e5
#endif
void h_fixed_points(void)
{
    int i = vp_pick(vp_int("point", 0, 7)), w = vp_pick(vp_int("affine", 0, 3));
    double x = PX[i] / 8., y = PY[i] / 8., r2 = x * x + y * y, R, tx, ty, dx, dy, fx, fy, s = SN[w] / DN[w], c = CS[w] / DN[w];
    ap_52 *a = &cal.added_par;
    memset(&cal, 0, sizeof cal);
    a->k2 = vp_double("k2", -1, 1); a->k3 = vp_double("k3", -1, 1); a->k1 = vp_double("k1", -100, 100);
    a->p1 = vp_double("p1", -10, 10); a->p2 = vp_double("p2", -10, 10);
    a->scx = SC[w];
    if (w == 1 || w == 2) {            /* an angle with this sine and cosine */
        a->she = vp_double("she", -1, 1);
        if (!vp_is_symbolic()) a->she = atan2(s, c);
        vp_assume(vp_close(sin(a->she), s, 1e-12) && vp_close(cos(a->she), c, 1e-12));
    }
    if (!vp_is_symbolic()) {           /* the recorded values are rounded: solve the two (linear) equations again for k1 and p1/p2 */
        double Rq, A, B, C, D, e, f, det;
        int q2 = fabs(x) > fabs(y);    /* which of p1, p2 is kept */
        Rq = a->k2 * r2 * r2 + a->k3 * r2 * r2 * r2;
        /* y*(1+Rq+k1 r2) + ty = y/c ; x*(1+Rq+k1 r2) + tx = (x + s*y/c)/scx */
        A = y * r2; B = q2 ? r2 + 2 * y * y : 2 * x * y; e = y / c - y * (1 + Rq) - (q2 ? 2 * a->p1 * x * y : a->p2 * (r2 + 2 * y * y));
        C = x * r2; D = q2 ? 2 * x * y : r2 + 2 * x * x; f = (x + s * y / c) / a->scx - x * (1 + Rq) - (q2 ? a->p1 * (r2 + 2 * x * x) : 2 * a->p2 * x * y);
        det = A * D - B * C;
        vp_assume(det != 0);
        a->k1 = (e * D - B * f) / det;
        *(q2 ? &a->p2 : &a->p1) = (A * f - e * C) / det;
    }
    R = a->k1 * r2 + a->k2 * r2 * r2 + a->k3 * r2 * r2 * r2;
    tx = a->p1 * (r2 + 2 * x * x) + 2 * a->p2 * x * y;
    ty = a->p2 * (r2 + 2 * y * y) + 2 * a->p1 * x * y;
    vp_assume(vp_close(c * (y + y * R + ty), y, 1e-9));
    vp_assume(vp_close(a->scx * (x + x * R + tx) - s * (y + y * R + ty), x, 1e-9));
    flat_to_dist(x, y, &cal, &dx, &dy);
    vp_assert(vp_close(dx, x, 1e-7) && vp_close(dy, y, 1e-7), "the point is fixed by the model");
    dist_to_flat(x, y, &cal, &fx, &fy, FPTOL);
    vp_assert(vp_close(fx, x, 1e-6) && vp_close(fy, y, 1e-6), "the correction returns the solution of the model");
    vp_reach("end");
}
/* convergence: one radial parameter symbolic, the point fixed; the corrected point maps back within the tolerance */
#ifndef TOL
#define TOL 1e-3
#endif
#ifndef NPAR
#define NPAR 1
#define VMAX .00390625
#endif
void h_converges(void)
{
    static const double X[2] = {2, 0}, Y[2] = {0, -1};
    int i = vp_pick(vp_int("point", 0, 1)), w = vp_pick(vp_int("parameter", 0, NPAR - 1));
    double x = X[i], y = Y[i], fx, fy, bx, by, r = i ? 1 : 2, v = vp_double("value", -VMAX, VMAX), e;
    ap_52 *a = &cal.added_par;
    memset(&cal, 0, sizeof cal);
    a->scx = 1;
    if (w == 0) a->k1 = v / (r * r);
    if (w == 1) a->k2 = v / (r * r * r * r);
    if (w == 2) a->k3 = v / (r * r * r * r * r * r) / 2;
    dist_to_flat(x, y, &cal, &fx, &fy, TOL);
    flat_to_dist(fx, fy, &cal, &bx, &by);
    e = TOL * r;
    vp_assert(bx - x <= e && x - bx <= e && by - y <= e && y - by <= e, "a converged correction maps back within the tolerance");
    vp_reach("end");
}
