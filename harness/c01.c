/* C01: pixel <-> metric conversions. Everything symbolic: sensor size, pitch, field mode, point. */
#include "vp.h"
#include "trafo.h"
static control_par cp;
static void setup(void)
{
    memset(&cp, 0, sizeof cp);
    cp.imx = vp_int("imx", 0, 1 << 20); cp.imy = vp_int("imy", 0, 1 << 20);
    cp.pix_x = vp_double("pix_x", 1e-6, 10); cp.pix_y = vp_double("pix_y", 1e-6, 10);
    cp.chfield = vp_int("chfield", 0, 2);
}
void h_roundtrip_pixel(void)
{
    double x, y, mx, my, bx, by;
    setup();
    x = vp_double("x", -1e6, 1e6); y = vp_double("y", -1e6, 1e6);
    pixel_to_metric(&mx, &my, x, y, &cp);
    metric_to_pixel(&bx, &by, mx, my, &cp);
    vp_assert(vp_close(bx, x, 1e-6), "x pixel -> metric -> pixel");
    vp_assert(vp_close(by, y, 1e-6), "y pixel -> metric -> pixel");
    bx = x; by = y;                               /* in place */
    pixel_to_metric(&bx, &by, bx, by, &cp);
    vp_assert(bx == mx && by == my, "in-place conversion to metric");
    vp_reach("end");
}
void h_roundtrip_metric(void)
{
    double x, y, px, py, bx, by;
    setup();
    x = vp_double("x", -1e6, 1e6); y = vp_double("y", -1e6, 1e6);
    metric_to_pixel(&px, &py, x, y, &cp);
    pixel_to_metric(&bx, &by, px, py, &cp);
    vp_assert(vp_close(bx, x, 1e-6), "x metric -> pixel -> metric");
    vp_assert(vp_close(by, y, 1e-6), "y metric -> pixel -> metric");
    vp_reach("end");
}
void h_axes(void)
{
    double x, y, ax, ay, bx, by, cx, cy;
    int f;
    setup();
    f = cp.chfield == 0 ? 1 : 2;
    x = vp_double("x", -1e5, 1e5); y = vp_double("y", -1e5, 1e5);
    pixel_to_metric(&ax, &ay, x, y, &cp);
    pixel_to_metric(&bx, &by, x + 1, y + 1, &cp);
    vp_assert(vp_close(bx - ax, cp.pix_x, 1e-6), "one pixel to the right is one pitch in +x");
    vp_assert(vp_close(ay - by, f * cp.pix_y, 1e-6), "one row down is one pitch (two in a field) in -y");
    /* the sensor centre: full-frame row imy/2; rows of a field are the odd (mode 1) or even (mode 2) full-frame rows */
    pixel_to_metric(&cx, &cy, cp.imx / 2., cp.chfield == 0 ? cp.imy / 2. : cp.chfield == 1 ? (cp.imy / 2. - 1) / 2 : cp.imy / 4., &cp);
    vp_assert(vp_close(cx, 0, 1e-6) && vp_close(cy, 0, 1e-6), "the sensor centre is the metric origin");
    metric_to_pixel(&cx, &cy, 0, 0, &cp);
    vp_assert(vp_close(cx, cp.imx / 2., 1e-6), "the metric origin is in the middle of the rows");
    vp_assert(vp_close(cp.chfield == 0 ? cy : cp.chfield == 1 ? 2 * cy + 1 : 2 * cy, cp.imy / 2., 1e-6), "the metric origin is in the middle of the columns");
    vp_reach("end");
}
