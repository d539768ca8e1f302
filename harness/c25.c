/* C25: comparisons report equality exactly when all fields are equal. */
#include "vp.h"
#include "parameters.h"
#include "calibration.h"
#include "tracking_frame_buf.h"
#define LIM 1e6
static int same;
/* every object gets its own symbolic value for the field; the values may coincide */
#define D(a, b, f) do { (a)->f = vp_double(#f, -LIM, LIM); (b)->f = vp_double(#f, -LIM, LIM); if ((a)->f != (b)->f) same = 0; } while (0)
#define I(a, b, f) do { (a)->f = vp_int(#f, -2147483647 - 1, 2147483647); (b)->f = vp_int(#f, -2147483647 - 1, 2147483647); if ((a)->f != (b)->f) same = 0; } while (0)
#define F(a, b, f) do { (a)->f = vp_int(#f, -1000000, 1000000) * 0.5f; (b)->f = vp_int(#f, -1000000, 1000000) * 0.5f; if ((a)->f != (b)->f) same = 0; } while (0)
#define VERDICT(fn, a, b) do { int r1 = fn(a, b) != 0, r2 = fn(b, a) != 0; \
    vp_assert(r1 == same, #fn ": equal exactly when every field is equal"); vp_assert(r2 == same, #fn ": symmetric"); \
    vp_assert(fn(a, a) != 0, #fn ": equal to itself"); if (same) vp_reach("equal"); else vp_reach("different"); } while (0)
static void ext(Exterior *a, Exterior *b)
{
    int i, j;
    D(a, b, x0); D(a, b, y0); D(a, b, z0); D(a, b, omega); D(a, b, phi); D(a, b, kappa);
    for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) D(a, b, dm[i][j]);
}
static void inte(Interior *a, Interior *b) { D(a, b, xh); D(a, b, yh); D(a, b, cc); }
static void gla(Glass *a, Glass *b) { D(a, b, vec_x); D(a, b, vec_y); D(a, b, vec_z); }
static void addp(ap_52 *a, ap_52 *b) { D(a, b, k1); D(a, b, k2); D(a, b, k3); D(a, b, p1); D(a, b, p2); D(a, b, scx); D(a, b, she); }
void h_exterior(void) { Exterior a, b; same = 1; ext(&a, &b); VERDICT(compare_exterior, &a, &b); }
void h_interior(void) { Interior a, b; same = 1; inte(&a, &b); VERDICT(compare_interior, &a, &b); }
void h_glass(void) { Glass a, b; same = 1; gla(&a, &b); VERDICT(compare_glass, &a, &b); }
void h_addpar(void) { ap_52 a, b; same = 1; addp(&a, &b); VERDICT(compare_addpar, &a, &b); }
void h_calib(void)
{
    Calibration a, b; same = 1;
    memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
    ext(&a.ext_par, &b.ext_par); inte(&a.int_par, &b.int_par); gla(&a.glass_par, &b.glass_par); addp(&a.added_par, &b.added_par);
    VERDICT(compare_calib, &a, &b);
}
void h_target(void)
{
    target x, y, *a = &x, *b = &y; same = 1;
    I(a, b, pnr); D(a, b, x); D(a, b, y); I(a, b, n); I(a, b, nx); I(a, b, ny); I(a, b, sumg); I(a, b, tnr);
    VERDICT(compare_targets, a, b);
}
void h_corres(void)
{
    corres x, y, *a = &x, *b = &y; int i; same = 1;
    I(a, b, nr); for (i = 0; i < 4; i++) I(a, b, p[i]);
    VERDICT(compare_corres, a, b);
}
void h_path(void)
{
    P x, y, *a = &x, *b = &y; int i; same = 1;
    for (i = 0; i < 3; i++) D(a, b, x[i]);
    I(a, b, prev); I(a, b, next); I(a, b, prio); I(a, b, inlist); F(a, b, finaldecis);
    for (i = 0; i < POSI; i++) { F(a, b, decis[i]); I(a, b, linkdecis[i]); }
    VERDICT(compare_path_info, a, b);
}
void h_track_par(void)
{
    track_par x, y, *a = &x, *b = &y; same = 1;
    D(a, b, dacc); D(a, b, dangle); D(a, b, dvxmax); D(a, b, dvxmin); D(a, b, dvymax); D(a, b, dvymin); D(a, b, dvzmax); D(a, b, dvzmin);
    I(a, b, dsumg); I(a, b, dn); I(a, b, dnx); I(a, b, dny); I(a, b, add);
    VERDICT(compare_track_par, a, b);
}
void h_volume_par(void)
{
    volume_par x, y, *a = &x, *b = &y; int i; same = 1;
    for (i = 0; i < 2; i++) { D(a, b, X_lay[i]); D(a, b, Zmin_lay[i]); D(a, b, Zmax_lay[i]); }
    D(a, b, cn); D(a, b, cnx); D(a, b, cny); D(a, b, csumg); D(a, b, eps0); D(a, b, corrmin);
    VERDICT(compare_volume_par, a, b);
}
void h_target_par(void)
{
    target_par x, y, *a = &x, *b = &y; int i; same = 1;
    for (i = 0; i < 4; i++) I(a, b, gvthres[i]);
    I(a, b, discont); I(a, b, nnmin); I(a, b, nnmax); I(a, b, nxmin); I(a, b, nxmax); I(a, b, nymin); I(a, b, nymax); I(a, b, sumg_min); I(a, b, cr_sz);
    VERDICT(compare_target_par, a, b);
}
/* the second and third layers are documented as not compared: kept equal here */
static void mm(mm_np *a, mm_np *b)
{
    int i;
    I(a, b, nlay); D(a, b, n1); D(a, b, n3); D(a, b, n2[0]); D(a, b, d[0]);
    for (i = 1; i < 3; i++) { a->n2[i] = b->n2[i] = 1.33; a->d[i] = b->d[i] = 5; }
}
void h_mm_np(void) { mm_np a, b; same = 1; mm(&a, &b); VERDICT(compare_mm_np, &a, &b); }
/* names: LEN characters in common, then up to two symbolic characters */
#ifndef LEN
#define LEN 0
#endif
static void names(char *a, char *b)
{
    int i, d = 0;
    for (i = 0; i < SEQ_FNAME_MAX_LEN; i++) a[i] = b[i] = 0;
    for (i = 0; i < LEN; i++) a[i] = b[i] = 'n';
    for (i = LEN; i < LEN + 2; i++) { a[i] = vp_int("char", 0, 3) ? 'a' + vp_int("letter", 0, 25) : 0; b[i] = vp_int("char", 0, 3) ? 'a' + vp_int("letter", 0, 25) : 0; }
    if (!a[LEN]) a[LEN + 1] = 0;
    if (!b[LEN]) b[LEN + 1] = 0;
    if (a[LEN] != b[LEN] || a[LEN + 1] != b[LEN + 1]) same = 0;
}
#define NCAM 2
void h_sequence_par(void)
{
    sequence_par x, y, *a = &x, *b = &y; int c; char s[2][NCAM][SEQ_FNAME_MAX_LEN], *pa[NCAM], *pb[NCAM];
    same = 1;
    for (c = 0; c < NCAM; c++) { names(s[0][c], s[1][c]); pa[c] = s[0][c]; pb[c] = s[1][c]; }
    a->img_base_name = pa; b->img_base_name = pb;
    a->num_cams = NCAM; b->num_cams = vp_int("cams", 1, NCAM);
    if (a->num_cams != b->num_cams) same = 0;
    I(a, b, first); I(a, b, last);
    VERDICT(compare_sequence_par, a, b);
}
void h_control_par(void)
{
    control_par x, y, *a = &x, *b = &y; int c; mm_np ma, mb; char s[4][NCAM][SEQ_FNAME_MAX_LEN], *p[4][NCAM];
    same = 1;
    for (c = 0; c < NCAM; c++) {
        names(s[0][c], s[1][c]); names(s[2][c], s[3][c]);
        p[0][c] = s[0][c]; p[1][c] = s[1][c]; p[2][c] = s[2][c]; p[3][c] = s[3][c];
    }
    a->img_base_name = p[0]; b->img_base_name = p[1]; a->cal_img_base_name = p[2]; b->cal_img_base_name = p[3];
    a->num_cams = NCAM; b->num_cams = vp_int("cams", 1, NCAM);
    if (a->num_cams != b->num_cams) same = 0;
    I(a, b, hp_flag); I(a, b, allCam_flag); I(a, b, tiff_flag); I(a, b, imx); I(a, b, imy); I(a, b, chfield); D(a, b, pix_x); D(a, b, pix_y);
    a->mm = &ma; b->mm = &mb; mm(&ma, &mb);
    VERDICT(compare_control_par, a, b);
}
