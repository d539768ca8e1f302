/* C30: the image search window covers the 3D search volume. */
#include "vp.h"
#include "track.h"
static Calibration cal[4]; static control_par cp; static mm_np mm; static track_par tp; static vec3d pt;
static double img[4][9][2]; static int seen[4], ncam;
void vp_override_img_coord(vec3d p, Calibration *c, mm_np *m, double *x, double *y)
{
    int cam = (int)(c - cal), k = 0, d, centre = 0;
    double lo[3], hi[3];
    lo[0] = tp.dvxmin; lo[1] = tp.dvymin; lo[2] = tp.dvzmin; hi[0] = tp.dvxmax; hi[1] = tp.dvymax; hi[2] = tp.dvzmax;
    vp_assert(cam >= 0 && cam < ncam && m == &mm, "with the camera's calibration and the given media");
    for (d = 0; d < 3; d++) {
        if (p[d] == pt[d]) centre++;
        else if (p[d] == pt[d] + hi[d]) k |= 1 << d;
        else vp_assert(p[d] == pt[d] + lo[d], "a corner of the search volume or its centre");
    }
    vp_assert(centre == 0 || centre == 3, "a corner or the centre");
    if (centre) k = 8;
    seen[cam] |= 1 << k;
    *x = (img[cam][k][0] - cp.imx / 2.) * cp.pix_x; *y = (cp.imy / 2. - img[cam][k][1]) * cp.pix_y;
}
static double clip(double v, double hi) { return v < 0 ? 0 : v > hi ? hi : v; }
void h_quader(void)
{
    int i, k, moving = vp_pick(vp_int("moving", 0, 7)), cam, away;
    double xr[4], xl[4], yd[4], yu[4]; Calibration *cp_cal[4] = {&cal[0], &cal[1], &cal[2], &cal[3]};
    ncam = vp_pick(vp_int("cameras", 1, 2)); cam = ncam - 1; away = ncam == 2 ? 0 : -1;
    memset(&cp, 0, sizeof cp); cp.imx = 100; cp.imy = 80; cp.pix_x = .25; cp.pix_y = .5; cp.mm = &mm; cp.num_cams = ncam;
    memset(&tp, 0, sizeof tp);
    tp.dvxmin = vp_double("dvxmin", -9, -.5); tp.dvxmax = vp_double("dvxmax", .25, 9); tp.dvymin = vp_double("dvymin", -9, -.5); tp.dvymax = vp_double("dvymax", .25, 9);
    tp.dvzmin = vp_double("dvzmin", -9, -.5); tp.dvzmax = vp_double("dvzmax", .25, 9); tp.dangle = 300; tp.dacc = 40; tp.add = 1;
    for (i = 0; i < 3; i++) pt[i] = vp_double("point", -20, 20);
    { double bx = vp_double("image x", -150, 250), by = vp_double("image y", -150, 250), mx = vp_double("moved x", -150, 250), my = vp_double("moved y", -150, 250);
      for (k = 0; k < 9; k++) { img[cam][k][0] = k == moving ? mx : bx; img[cam][k][1] = k == moving ? my : by; } 
      if (away >= 0) for (k = 0; k < 9; k++) { img[away][k][0] = 30 + k; img[away][k][1] = 20 + 2 * k; } }
    for (i = 0; i < 4; i++) { seen[i] = 0; xr[i] = xl[i] = yd[i] = yu[i] = -77; }
    searchquader(pt, xr, xl, yd, yu, &tp, &cp, cp_cal);
    for (i = 0; i < ncam; i++) {
        double cx = img[i][8][0], cy = img[i][8][1], x0 = cx - xl[i], x1 = cx + xr[i], y0 = cy - yu[i], y1 = cy + yd[i];
        double nx = 1e6, ny = 1e6, fx = -1e6, fy = -1e6;
        vp_assert(seen[i] == 511, "every corner and the centre are projected");
        for (k = 0; k < 8; k++) {
            double ix = img[i][k][0], iy = img[i][k][1];
            if (i == cam && k != moving && k != (moving ^ 1)) continue;     /* all others are the same */
            ix = clip(ix, 100); iy = clip(iy, 80);
            vp_assert(x0 <= ix + 1e-9 && x1 >= ix - 1e-9, "the window covers every corner's column, as far as it is in the image");
            vp_assert(y0 <= iy + 1e-9 && y1 >= iy - 1e-9, "the window covers every corner's row, as far as it is in the image");
            if (ix < nx) nx = ix; if (ix > fx) fx = ix; if (iy < ny) ny = iy; if (iy > fy) fy = iy;
        }
        vp_assert(x0 >= -1e-9 && x1 <= 100 + 1e-9 && y0 >= -1e-9 && y1 <= 80 + 1e-9, "the window stays inside the image");
        vp_assert(x0 <= x1 + 1e-9 && y0 <= y1 + 1e-9, "its extent is not negative");
        vp_assert(vp_close(x0, nx, 1e-9) && vp_close(x1, fx, 1e-9) && vp_close(y0, ny, 1e-9) && vp_close(y1, fy, 1e-9), "no larger than the corners' range");
    }
    for (i = ncam; i < 4; i++) vp_assert(xr[i] == -77 && xl[i] == -77 && yd[i] == -77 && yu[i] == -77, "windows of absent cameras are left alone");
    vp_reach("end");
}
