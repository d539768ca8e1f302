/* C09: cliques are formed only from pairwise matches and all are found. */
#include "vp.h"
#include "correspondences.h"
#ifndef NC
#define NC 4
#endif
#ifndef T
#define T 2            /* targets per camera */
#endif
#ifndef CAP
#define CAP 40         /* larger than any number of cliques */
#endif
static correspond L01[T], L02[T], L03[T], L12[T], L13[T], L23[T];
static correspond *const L[4][4] = {{0, L01, L02, L03}, {0, 0, L12, L13}, {0, 0, 0, L23}};
static correspond *list[4][4];
static int edge[4][4][T][T];     /* (c1<c2): candidate? */
static int counts[4];
/* which edges are free: all of pair (c1,c2) when FREE has its bit, or those of target 0; the others follow one pattern */
#ifndef FREE
#define FREE 0
#endif
#ifndef ROW
#define ROW 63
#endif
static const int bit[4][4] = {{0, 1, 2, 4}, {0, 0, 8, 16}, {0, 0, 0, 32}};

static double score, minimum;
static void make(void)
{
    int c1, c2, i, j, t, q, bg = FREE == 63 ? 0 : vp_pick(vp_int("background", 1, 2)), desc = bg == 2;    /* same number, or all */
    score = vp_double("score", 0, 10); minimum = vp_double("minimum", 0, 10);
    for (c1 = 0; c1 < NC - 1; c1++) for (c2 = c1 + 1; c2 < NC; c2++) {
        list[c1][c2] = L[c1][c2];
        for (i = 0; i < T; i++) {
            correspond *l = &L[c1][c2][i]; int *e = edge[c1][c2][i];
            l->n = 0;
            for (t = 0; t < T; t++) {
                q = desc ? T - 1 - t : t;
                e[q] = (i == 0 && (ROW & bit[c1][c2])) || (FREE & bit[c1][c2]) ? vp_pick(vp_int("edge", 0, 1)) : bg == 2 || i == q;
                if (e[q]) { l->p2[l->n] = q; l->corr[l->n] = score; l->dist[l->n] = 1; l->n++; }
            }
            l->p1 = l->n ? i : 0;          /* not set for an unused point */
        }
    }
    for (c1 = 0; c1 < NC; c1++) counts[c1] = T;
}
static int pair(int c1, int t1, int c2, int t2) { return edge[c1][c2][t1][t2]; }
static int found(n_tupel *o, int n, const int *p)
{
    int i, c, r = 0, eq;
    for (i = 0; i < CAP; i++) {
        if (i >= n) break;
        eq = 1;
        for (c = 0; c < NC; c++) eq &= o[i].p[c] == p[c];
        r += eq;
    }
    return r;
}
static n_tupel out[CAP + 1];
static void guard(void) { out[CAP].corr = 77; out[CAP].p[0] = 4711; }
static void guarded(int n) { vp_assert(n >= 0 && n <= CAP && out[CAP].corr == 77 && out[CAP].p[0] == 4711, "the capacity is not exceeded"); }
static int total, good;
static void check(int n, const int *p, int ok)
{
    ok = ok & (score > minimum);
    total += ok;
#ifndef CUT
    good &= found(out, n, p) == ok;
#else
    good &= found(out, n, p) <= ok;
#endif
}
static void verdict(int n)
{
    vp_assert(good, "every clique is proposed exactly once and nothing but cliques");
    vp_assert((total < CAP) * (n == total) + (total >= CAP) * (n == CAP), "the number of proposals");
    if (n > 1) vp_reach("several");
}
void h_four(void)
{
    int n, a, b, c, e, k, p[4];
    make(); guard(); total = 0; good = 1;
    n = four_camera_matching(list, T, minimum, out, CAP);
    guarded(n);
    for (a = 0; a < T; a++) for (b = 0; b < T; b++) for (c = 0; c < T; c++) for (e = 0; e < T; e++) {
        p[0] = a; p[1] = b; p[2] = c; p[3] = e;
        k = pair(0, a, 1, b) & pair(0, a, 2, c) & pair(0, a, 3, e) & pair(1, b, 2, c) &
            pair(1, b, 3, e) & pair(2, c, 3, e);
        check(n, p, k);
    }
    verdict(n);
}
static int *usage[4], um[4][T];
static int free_(int c, int t) { return um[c][t] == 0; }
static void used(void)    /* the first target of one camera may be in use already */
{
    int c, t;
    for (c = 0; c < NC; c++) { usage[c] = um[c]; for (t = 0; t < T; t++) um[c][t] = 0; }
    c = vp_pick(vp_int("used", -1, NC - 1));
    if (c >= 0) um[c][0] = vp_int("marks", 1, 3);
}
void h_three(void)
{
    int n, i1, i2, i3, a, b, c, k, x, p[4];
    make(); guard(); used(); total = 0; good = 1;
    n = three_camera_matching(list, NC, counts, minimum, out, CAP, usage);
    guarded(n);
    for (i1 = 0; i1 < NC - 2; i1++) for (i2 = i1 + 1; i2 < NC - 1; i2++) for (i3 = i2 + 1; i3 < NC; i3++)
        for (a = 0; a < T; a++) for (b = 0; b < T; b++) for (c = 0; c < T; c++) {
            for (x = 0; x < NC; x++) p[x] = -2;
            p[i1] = a; p[i2] = b; p[i3] = c;
            k = pair(i1, a, i2, b) & pair(i1, a, i3, c) & pair(i2, b, i3, c);
            check(n, p, k & free_(i1, a) & free_(i2, b) & free_(i3, c));
        }
    verdict(n);
}
void h_two(void)
{
    int n, i1, i2, a, b, k, x, p[4];
    make(); guard(); used(); total = 0; good = 1;
    n = consistent_pair_matching(list, NC, counts, minimum, out, CAP, usage);
    guarded(n);
    for (i1 = 0; i1 < NC - 1; i1++) for (i2 = i1 + 1; i2 < NC; i2++)
        for (a = 0; a < T; a++) for (b = 0; b < T; b++) {
            for (x = 0; x < NC; x++) p[x] = -2;
            p[i1] = a; p[i2] = b;
            k = pair(i1, a, i2, b) & (edge[i1][i2][a][0] + edge[i1][i2][a][1] == 1);   /* only unambiguous pairs */
            check(n, p, k & free_(i1, a) & free_(i2, b));
        }
    verdict(n);
}
/* the score of one clique among a second candidate in every list: all correlations and distances symbolic reals */
void h_score(void)
{
    int c1, c2, i, j, n, k = vp_pick(vp_int("cameras", 2, 4)), um0[4][2], m[4], q, z, y; double s = 0, d = 0, w; n_tupel o[8]; int *us[4];
    for (c1 = 0; c1 < 4; c1++) { us[c1] = um0[c1]; um0[c1][0] = um0[c1][1] = 0; m[c1] = vp_pick(vp_int("member", 0, 1)); counts[c1] = 2; }
    for (c1 = 0; c1 < k - 1; c1++) for (c2 = c1 + 1; c2 < k; c2++) {
        list[c1][c2] = L[c1][c2];
        for (i = 0; i < 2; i++) {
            correspond *l = &L[c1][c2][i];
            l->p1 = i; l->n = 0;
            for (j = 0; j < 2; j++) { l->corr[j] = 1e9; l->dist[j] = 1e-9; l->p2[j] = 0; }
            if (i != m[c1]) continue;
            /* the member's partner is the only candidate of a pair, otherwise the second of two; the first one leads nowhere */
            z = k == 2 ? 0 : c2 == k - 1 ? 0 : 1;
            if (z) { l->p2[0] = 1 - m[c2]; l->corr[0] = vp_double("c0", 0, 100); l->dist[0] = vp_double("d0", .001, 1); }
            l->p2[z] = m[c2]; l->n = z + 1;
            l->corr[z] = vp_double("corr", 0, 100); l->dist[z] = vp_double("dist", .001, 1);
            s += l->corr[z]; d += l->dist[z];
        }
    }
    w = vp_double("accept", 0, 1000);
    if (k == 4) n = four_camera_matching(list, 2, w, o, 8);
    else if (k == 3) n = three_camera_matching(list, 3, counts, w, o, 8, us);
    else n = consistent_pair_matching(list, 2, counts, w, o, 8, us);
    vp_assert(n == (s > w * d), "accepted exactly above the minimum");
    if (n == 1) { vp_assert(vp_close(o[0].corr * d, s, 1e-6), "score: correlations over distances");
        for (q = 0; q < k; q++) vp_assert(o[0].p[q] == m[q], "members");
        vp_reach("accepted"); } else vp_reach("refused");
    y = n; (void)y;
}
