/* C28: calibration targets go to the nearest reference point. */
#include "vp.h"
#include "sortgrid.h"
#ifndef NT
#define NT 2
#endif
#ifndef COLUMN
#define COLUMN 0
#endif
static double dsq(target *t, double x, double y) { return (t->x - x) * (t->x - x) + (t->y - y) * (t->y - y); }
static int within(target *t, double x, double y, double e) { return (t->x > x - e) & (t->x < x + e) & (t->y > y - e) & (t->y < y + e); }
/* is k (or -999) the right answer */
static void check_nearest(int k, target *t, int n, double x, double y, double e, int *none)
{
    int j, any = 0;
    for (j = 0; j < n; j++) any |= within(&t[j], x, y, e);
    vp_assert(k == -999 || (k >= 0 && k < n), "a target of the list or the unused marker");
    if (k == -999) vp_assert(!any, "a target inside the radius is found");
    else {
        vp_assert(within(&t[k], x, y, e), "the target found is inside the radius");
        for (j = 0; j < n; j++) if (j != k) vp_assert(!within(&t[j], x, y, e) | (dsq(&t[j], x, y) >= dsq(&t[k], x, y)), "no target inside the radius is nearer");
    }
    *none = k == -999;
}
static target t[NT + 1];
static void targets(void)
{
    int i;
    memset(t, 0, sizeof t);
    for (i = 0; i < NT; i++) {
        t[i].pnr = 10 + i; t[i].n = 20 + i; t[i].nx = 30 + i; t[i].ny = 40 + i; t[i].sumg = 50 + i; t[i].tnr = 60 + i;
        t[i].x = COLUMN ? 40 : vp_double("x", -200, 200); t[i].y = vp_double("y", -200, 200);
    }
}
void h_nearest(void)
{
    int k, none, n = vp_pick(vp_int("n", 0, NT));
    double x = vp_double("px", -150, 150), y = vp_double("py", -150, 150), e = vp_double("eps", 0, 300);
    if (COLUMN) x = 43;
    targets();
    k = nearest_neighbour_pix(t, n, x, y, e);
    check_nearest(k, t, n, x, y, e, &none);
    if (!none) vp_reach("found");
    vp_reach("end");
}
#define NF 3
static vec3d fix[NF]; static double px[NF], py[NF]; static Calibration cal; static control_par cp; static mm_np mm; static int used[NF];
void vp_override_img_coord(vec3d pos, Calibration *c, mm_np *m, double *x, double *y)
{
    int i = -1, k;
    for (k = 0; k < NF; k++) if (pos[0] == fix[k][0] && pos[1] == fix[k][1] && pos[2] == fix[k][2]) i = k;
    vp_assert(i >= 0, "a reference point is projected"); vp_assert(c == &cal && m == &mm, "with the given camera and media");
    if (i < 0) i = 0;
    used[i]++;
    *x = (px[i] - cp.imx / 2.) * cp.pix_x; *y = (cp.imy / 2. - py[i]) * cp.pix_y;
}
void h_grid(void)
{
    int i, k, none, nf = vp_pick(vp_int("reference points", 0, NF)), eps = vp_pick(vp_int("eps", 1, 3)) * 5, moving = vp_pick(vp_int("moving", 0, NF - 1));
    target *s, old[NT + 1];
    memset(&cp, 0, sizeof cp); cp.imx = 100; cp.imy = 80; cp.pix_x = .25; cp.pix_y = .5; cp.mm = &mm; cp.num_cams = 1;
    for (i = 0; i < NF; i++) {
        fix[i][0] = i; fix[i][1] = 2 * i; fix[i][2] = -i; used[i] = 0;
        px[i] = 20 + 30 * i; py[i] = 30;
        if (i == moving) { px[i] = vp_double("projected x", -40, 140); py[i] = vp_double("projected y", -40, 140); }
    }
    memset(t, 0, sizeof t);
    for (i = 0; i < NT; i++) {
        t[i].pnr = 10 + i; t[i].n = 20 + i; t[i].nx = 30 + i; t[i].ny = 40 + i; t[i].sumg = 50 + i; t[i].tnr = 60 + i;
        t[i].x = i < 2 ? 22 + 28 * i : i == 2 ? 1 : 98; t[i].y = i < 2 ? 31 + 17 * i : i == 2 ? 2 : 79;
    }
    memcpy(old, t, sizeof t);
    s = sortgrid(&cal, &cp, nf, fix, NT, eps, t);
    for (i = 0; i < NT; i++)
        vp_assert(old[i].pnr == t[i].pnr && old[i].x == t[i].x && old[i].y == t[i].y && old[i].n == t[i].n && old[i].tnr == t[i].tnr && old[i].sumg == t[i].sumg, "the given targets stay as they were");
    for (i = 0; i < nf; i++) {
        int in = (px[i] > -eps) & (py[i] > -eps) & (px[i] < 100 + eps) & (py[i] < 80 + eps);
        vp_assert(s[i].pnr == i || s[i].pnr == -999, "numbered like the reference points, or unused");
        if (s[i].pnr == -999) k = -999;
        else for (k = 0; k < NT && s[i].tnr != t[k].tnr; k++);
        if (k >= 0) {
            vp_assert(k < NT && s[i].x == t[k].x && s[i].y == t[k].y && s[i].n == t[k].n && s[i].nx == t[k].nx && s[i].ny == t[k].ny && s[i].sumg == t[k].sumg,
                      "the whole target is taken over");
            vp_assert(in, "only for points projected into the image"); vp_reach("assigned");
        }
        if (in) check_nearest(k, t, NT, px[i], py[i], eps, &none);
    }
    free(s);
    vp_reach("end");
}
