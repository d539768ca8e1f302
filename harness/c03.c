/* C03: rotation matrix = Rx(omega) Ry(phi) Rz(kappa), orthonormal, det 1, nothing else changes. */
#include "vp.h"
#include "calibration.h"
#include <math.h>
static Exterior e;
static void setup(void)
{
    int i;
    e.x0 = vp_double("x0", -1e3, 1e3); e.y0 = vp_double("y0", -1e3, 1e3); e.z0 = vp_double("z0", -1e3, 1e3);
    e.omega = vp_double("omega", -7, 7); e.phi = vp_double("phi", -7, 7); e.kappa = vp_double("kappa", -7, 7);
    for (i = 0; i < 9; i++) e.dm[i / 3][i % 3] = 77 + i;
}
void h_product(void)
{
    Exterior o; int i, j, k;
    setup(); o = e;
    rotation_matrix(&e);
    double co = cos(o.omega), so = sin(o.omega), cp = cos(o.phi), sp = sin(o.phi), ck = cos(o.kappa), sk = sin(o.kappa);
    double A[3][3] = {{1, 0, 0}, {0, co, -so}, {0, so, co}}, B[3][3] = {{cp, 0, sp}, {0, 1, 0}, {-sp, 0, cp}},
           C[3][3] = {{ck, -sk, 0}, {sk, ck, 0}, {0, 0, 1}}, T[3][3], R[3][3];
    for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) { T[i][j] = 0; for (k = 0; k < 3; k++) T[i][j] += A[i][k] * B[k][j]; }
    for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) { R[i][j] = 0; for (k = 0; k < 3; k++) R[i][j] += T[i][k] * C[k][j]; }
    for (i = 0; i < 3; i++) for (j = 0; j < 3; j++)
        vp_assert(vp_close(e.dm[i][j], R[i][j], 1e-9), "matrix is the omega-phi-kappa product");
    vp_assert(e.x0 == o.x0 && e.y0 == o.y0 && e.z0 == o.z0, "position unchanged");
    vp_assert(e.omega == o.omega && e.phi == o.phi && e.kappa == o.kappa, "angles unchanged");
    vp_reach("end");
}
void h_orthonormal(void)
{
    int i, j, k; double d;
    setup();
    rotation_matrix(&e);
    for (i = 0; i < 3; i++) for (j = i; j < 3; j++) {
        d = 0;
        for (k = 0; k < 3; k++) d += e.dm[i][k] * e.dm[j][k];
        vp_assert(vp_close(d, i == j, 1e-9), "rows are orthonormal");
        d = 0;
        for (k = 0; k < 3; k++) d += e.dm[k][i] * e.dm[k][j];
        vp_assert(vp_close(d, i == j, 1e-9), "columns are orthonormal");
    }
    d = e.dm[0][0] * (e.dm[1][1] * e.dm[2][2] - e.dm[1][2] * e.dm[2][1])
      - e.dm[0][1] * (e.dm[1][0] * e.dm[2][2] - e.dm[1][2] * e.dm[2][0])
      + e.dm[0][2] * (e.dm[1][0] * e.dm[2][1] - e.dm[1][1] * e.dm[2][0]);
    vp_assert(vp_close(d, 1, 1e-9), "determinant is one");
    vp_reach("end");
}
void h_zero(void)
{
    int i;
    setup(); e.omega = e.phi = e.kappa = 0;
    rotation_matrix(&e);
    for (i = 0; i < 9; i++) vp_assert(e.dm[i / 3][i % 3] == (i / 3 == i % 3), "zero angles give the identity");
    vp_reach("end");
}
