/* C27: the numerical derivatives.  The projection is a polynomial of the exterior parameters. */
#include "vp.h"
#include "orientation.h"
static double A[6], B[6], Q; static int wrong; static double pos[3];
static double *ex(Exterior *e, int k) { double *p[] = {&e->x0, &e->y0, &e->z0, &e->omega, &e->phi, &e->kappa}; return p[k]; }
void vp_override_img_coord(vec3d p, Calibration *c, mm_np *m, double *x, double *y)
{
    Exterior e = c->ext_par; int k;
    rotation_matrix(&e);
    for (k = 0; k < 9; k++) wrong |= e.dm[k / 3][k % 3] != c->ext_par.dm[k / 3][k % 3];
    wrong |= p[0] != pos[0] || p[1] != pos[1] || p[2] != pos[2];
    *x = *y = 1;
    for (k = 0; k < 6; k++) { double v = *ex(&e, k); *x += A[k] * v; *y += B[k] * v; }
}
void h_deriv(void)
{
    Calibration c, o; control_par cp; mm_np mm; double dp, da, x[6], y[6]; int k;
    memset(&c, 0, sizeof c); memset(&cp, 0, sizeof cp); memset(&mm, 0, sizeof mm); cp.mm = &mm;
    for (k = 0; k < 3; k++) { *ex(&c.ext_par, k) = vp_double("position", -100, 100); *ex(&c.ext_par, k + 3) = vp_double("angle", -3, 3); pos[k] = k + 5; }
    for (k = 0; k < 6; k++) { A[k] = k + 2; B[k] = 30 - 3 * k; }
    c.int_par.cc = 7; c.added_par.k1 = 8; c.glass_par.vec_z = 9;
    c.ext_par.dm[0][0] = 99;
    dp = vp_double("dpos", .00001, 1); da = vp_pick(vp_int("dang", 1, 2)) * .001;
    o = c;
    num_deriv_exterior(&c, &cp, dp, da, pos, x, y);
    vp_assert(!wrong, "every projection is of the given point, with the rotation of its angles");
    for (k = 0; k < 6; k++) {
        vp_assert(vp_close(x[k], A[k], 1e-3) & vp_close(y[k], B[k], 1e-3), "the derivatives of x and y over the six exterior parameters, in order");
        vp_assert(vp_close(*ex(&c.ext_par, k), *ex(&o.ext_par, k), 1e-9), "the parameters come out as they were");
    }
    vp_assert(c.int_par.cc == 7 && c.added_par.k1 == 8 && c.glass_par.vec_z == 9 && c.int_par.xh == 0, "nothing else changes");
    rotation_matrix(&o.ext_par);
    for (k = 0; k < 9; k++) vp_assert(vp_close(c.ext_par.dm[k / 3][k % 3], o.ext_par.dm[k / 3][k % 3], 1e-9), "the rotation belongs to the angles");
    vp_reach("end");
}
