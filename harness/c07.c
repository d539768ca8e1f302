/* C07: multimedia look-up table. */
#include "vp.h"
#include "multimed.h"
#ifndef NR
#define NR 3
#define NZ 3
#endif
/* any table content, any point */
void h_lookup(void)
{
    Calibration cal; vec3d pos; int i, j, nr, nz, rw; double *d, dx, dy, R, z, m, e;
    memset(&cal, 0, sizeof cal);
    nr = vp_pick(vp_int("nr", 1, NR)); nz = vp_pick(vp_int("nz", 1, NZ)); rw = vp_pick(vp_int("rw", 1, 3));
    d = malloc(nr * nz * sizeof(double));
    for (i = 0; i < nr * nz; i++) d[i] = vp_double("node", 1, 4);
    for (i = 0; i < 3; i++) cal.mmlut.origin[i] = vp_double("origin", -10, 10);
    for (i = 0; i < 3; i++) pos[i] = vp_double("pos", -30, 30);
    cal.mmlut.nr = nr; cal.mmlut.nz = nz; cal.mmlut.rw = rw; cal.mmlut.data = d;
    dx = pos[0] - cal.mmlut.origin[0]; dy = pos[1] - cal.mmlut.origin[1]; z = pos[2] - cal.mmlut.origin[2];
    R = sqrt(dx * dx + dy * dy);
    m = get_mmf_from_mmlut(&cal, pos);
    for (i = 0; i < nr - 1 && !(R < (i + 1) * rw); i++);
    for (j = 0; j < nz - 1 && !(z < (j + 1) * rw); j++);
    if (i < nr - 1 && j < nz - 1 && z >= 0) {
        double sr = R / rw - i, sz = z / rw - j;
        e = d[i * nz + j] * (1 - sr) * (1 - sz) + d[i * nz + j + 1] * (1 - sr) * sz + d[(i + 1) * nz + j] * sr * (1 - sz) +
            d[(i + 1) * nz + j + 1] * sr * sz;
        vp_assert(vp_close(m, e, 1e-6), "inside the table: bilinear interpolation of the four nodes");
        vp_reach("inside");
    } else if (z < 0 || R > (nr - 1) * rw || z > (nz - 1) * rw) {
        vp_assert(m == 0, "outside the table: zero");
        vp_reach("outside");
    }
    free(d);
    vp_reach("end");
}
/* Building the table: the rays of the image corners and the refraction factor are replaced by arbitrary values resp. a
   linear function, so that looking up any point of the table must give exactly that function. */
static double fa, fb, fc; static int calls;
double vp_override_multimed_r_nlay(Calibration *cal, mm_np *mm, vec3d pos)
{
    double R = sqrt((pos[0] - cal->ext_par.x0) * (pos[0] - cal->ext_par.x0) + (pos[1] - cal->ext_par.y0) * (pos[1] - cal->ext_par.y0));
    calls++;
    return fa + fb * R + fc * pos[2];
}
static double cx[4], cy[4], cxe[4], Zn;
void vp_override_ray_tracing(double x, double y, Calibration *cal, mm_np mm, vec3d X, vec3d a)
{
    int k = (x > 0) + 2 * (y > 0);
    X[0] = cx[k]; X[1] = 0; X[2] = 0; a[0] = 0; a[1] = 0; a[2] = -1;
}
void h_build(void)
{
    Calibration cal; control_par cp; mm_np mm; volume_par vp; vec3d pos; int k; double m, R, zmin, zmax, rmax = 0; int second, kk;
    memset(&cal, 0, sizeof cal); memset(&cp, 0, sizeof cp); memset(&mm, 0, sizeof mm); memset(&vp, 0, sizeof vp);
    cp.imx = cp.imy = 100; cp.pix_x = cp.pix_y = .01; cp.mm = &mm; cp.num_cams = 1;
    mm.nlay = 1; mm.n1 = 1; mm.n2[0] = 1.5; mm.n3 = 1.33; mm.d[0] = 5;
    cal.added_par.scx = 1; cal.glass_par.vec_z = 50; cal.ext_par.z0 = 200; cal.int_par.cc = 50;
    kk = vp_pick(vp_int("wide corner", 0, 3));
    for (k = 0; k < 4; k++) cx[k] = k == kk ? (kk & 1 ? 1 : -1) * vp_double("corner x", 0, 3.9) : k - 1;
    vp.Zmin_lay[0] = kk < 2 ? vp_double("zmin0", 40, 43) : 41; vp.Zmin_lay[1] = kk == 1 ? 39.5 : 43;
    vp.Zmax_lay[0] = kk == 2 ? 46.5 : 43; vp.Zmax_lay[1] = kk < 2 ? 44 : vp_double("zmax1", 43, 45);
    fa = 1; fb = .25; fc = .0078125;
    second = vp_pick(vp_int("call again for a larger volume", 0, 1));
    init_mmlut(&vp, &cp, &cal);
    vp_assert(cal.mmlut.data != NULL && cal.mmlut.nr >= 1 && cal.mmlut.nz >= 1, "there is a table");
    vp_assert(calls == cal.mmlut.nr * cal.mmlut.nz, "each node is set once");
    if (second) {
        volume_par v2 = vp; v2.Zmax_lay[0] = 55;
        init_mmlut(&v2, &cp, &cal);
    }
    /* a point of the imaged volume, in the frame of the glass (axis z, origin on the glass) */
    zmin = vp.Zmin_lay[0] < vp.Zmin_lay[1] ? vp.Zmin_lay[0] : vp.Zmin_lay[1];
    zmax = vp.Zmax_lay[0] > vp.Zmax_lay[1] ? vp.Zmax_lay[0] : vp.Zmax_lay[1];
    for (k = 0; k < 4; k++) { R = cx[k] < 0 ? -cx[k] : cx[k]; if (R > rmax) rmax = R; }
    pos[0] = vp_double("R", 0, 7); pos[1] = 0; pos[2] = vp_double("Z", -14, 0);
    m = get_mmf_from_mmlut(&cal, pos);
    if (m != 0) { vp_assert(vp_close(m, fa + fb * pos[0] + fc * pos[2], 1e-6), "a look-up gives the factor of that point"); vp_reach("hit"); }
    if (pos[0] <= rmax && pos[2] >= zmin - 50 && pos[2] <= zmax - 50)
        vp_assert(m != 0, "every point of the imaged volume is inside the table");
    free(cal.mmlut.data);
    vp_reach("end");
}
