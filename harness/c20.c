/* C20: nearest targets in the window, image space. */
#include "vp.h"
#include "track.h"
#ifndef N
#define N 4
#endif
#ifndef NLEN
#define NLEN 2
#endif
#ifndef FAN
#define FAN 0
#endif
static control_par cp;
static target *t; static int n;
static double cx, cy, dl, dr, du, dd;
static int inside(int j)
{
    double x0 = cx - dl, x1 = cx + dr, y0 = cy - du, y1 = cy + dd;
    if (x0 < 0) x0 = 0; if (y0 < 0) y0 = 0; if (x1 > cp.imx) x1 = cp.imx; if (y1 > cp.imy) y1 = cp.imy;
    return t[j].x > x0 && t[j].x < x1 && t[j].y > y0 && t[j].y < y1;
}
static double d2(int j) { return (cx - t[j].x) * (cx - t[j].x) + (cy - t[j].y) * (cy - t[j].y); }
static void check_nearest(int *p, int cap, int cnt, int rest)
{
    int i, j, k, m = 0, found;
    for (j = 0; j < n; j++) if ((t[j].tnr == -1) == rest && inside(j)) m++;
    if (!(cx >= 0 && cx <= cp.imx && cy >= 0 && cy <= cp.imy)) m = 0;
    if (m > cap) m = cap;
    vp_assert(cnt == m, "the count is the number of usable targets in the window, up to the capacity");
    for (i = 0; i < cap; i++) {
        if (i >= m) { vp_assert(p[i] == -999, "unused marker behind the last candidate"); continue; }
        vp_assert(p[i] >= 0 && p[i] < n, "a candidate is a target");
        vp_assert((t[p[i]].tnr == -1) == rest && inside(p[i]), "a candidate is usable and inside the window");
        for (k = 0; k < i; k++) vp_assert(p[k] != p[i], "no candidate twice");
        if (i) vp_assert(d2(p[i - 1]) <= d2(p[i]), "candidates ordered by distance");
    }
    if (m == cap) for (j = 0; j < n; j++) {
        found = 0;
        for (i = 0; i < m; i++) if (p[i] == j) found = 1;
        if (!found && (t[j].tnr == -1) == rest && inside(j)) vp_assert(d2(j) >= d2(p[cap - 1]), "no nearer target left out");
    }
    if (m == cap) vp_reach("full");
}
static void setup(void)
{
    memset(&cp, 0, sizeof cp); cp.imx = 100; cp.imy = 80;
}
static void run(int rest)
{
    int p[4] = {7, 7, 7, 7}, c;
    if (rest) { c = candsearch_in_pix_rest(t, n, cx, cy, dl, dr, du, dd, p, &cp);
                vp_assert(p[1] == 7 && p[2] == 7, "only one slot is written"); check_nearest(p, 1, c, 1); }
    else { c = candsearch_in_pix(t, n, cx, cy, dl, dr, du, dd, p, &cp); check_nearest(p, 4, c, 0); }
    vp_reach("end");
}
/* window tests: everything symbolic, few targets */
void h_window(void)
{
    int i, rest = vp_pick(vp_int("leftovers", 0, 1));
    setup();
    n = vp_pick(vp_int("n", 0, 2));
    t = malloc(n * sizeof(target) + !n);
    cx = vp_double("cx", -10, 110); cy = vp_double("cy", -10, 110);
    dl = vp_double("dl", 0, 50); dr = vp_double("dr", 0, 50); du = vp_double("du", 0, 50); dd = vp_double("dd", 0, 50);
    for (i = 0; i < n; i++) {
        t[i].pnr = i; t[i].tnr = vp_int("tnr", -1, 3); t[i].x = vp_double("x", 0, 100); t[i].y = vp_double("y", 0, 80);
        if (i) vp_assume(t[i - 1].y <= t[i].y);
    }
    run(rest);
    free(t);
}
/* ranking: n targets in a fixed window, positions symbolic */
void h_rank(void)
{
    int i, rest = vp_pick(vp_int("leftovers", 0, 1));
    setup();
    n = N; t = malloc(n * sizeof(target));
    cx = 50; cy = 40; dl = dr = 20; du = dd = 15;
    for (i = 0; i < n; i++) {
        t[i].pnr = i; t[i].tnr = rest ? -1 : i + 1; t[i].x = 50;
        if (FAN) t[i].x = 50 + (i % 3 - 1) * 2;       /* three columns */
        t[i].y = vp_double("y", 30, 50);
        if (i) vp_assume(t[i - 1].y <= t[i].y);
    }
    run(rest);
    free(t);
}
/* long lists: the start of the search is found by bisection */
void h_long(void)
{
    static const int LEN[10] = {8190, 1000, 31, 254, 63, 16382, 4095, 1023, 16384, 20000};
    int i, k = vp_pick(vp_int("length", 0, NLEN)), part = vp_pick(vp_int("part", 0, 8)), q, p[4], c, rest = vp_pick(vp_int("leftovers", 0, 1));
    setup(); cp.imx = 100; cp.imy = 30000;
    n = LEN[k]; t = malloc(n * sizeof(target));
    memset(t, 0, n * sizeof(target));
    q = (int)((long)n * part / 8); if (q >= n) q = n - 1;
    q += vp_pick(vp_int("offset", -1, 1)); if (q < 0) q = 0; if (q >= n) q = n - 1;
    for (i = 0; i < n; i++) { t[i].y = i + 1; t[i].x = 50; t[i].tnr = rest ? -1 : i; }
    cx = 50; cy = q + 1 + vp_double("dy", -.25, .25); dl = dr = 5; du = dd = .75;
    c = rest ? candsearch_in_pix_rest(t, n, cx, cy, dl, dr, du, dd, p, &cp) : candsearch_in_pix(t, n, cx, cy, dl, dr, du, dd, p, &cp);
    vp_assert(c == 1 && p[0] == q, "the only target in the window is found, wherever it is in the list");
    du = dd = 3.5;
    c = rest ? candsearch_in_pix_rest(t, n, cx, cy, dl, dr, du, dd, p, &cp) : candsearch_in_pix(t, n, cx, cy, dl, dr, du, dd, p, &cp);
    vp_assert(c == (rest ? 1 : 4) && p[0] == q, "nearest first, four in all");
    free(t);
    vp_reach("end");
}
