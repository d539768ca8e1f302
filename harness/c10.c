/* C10: matches are accepted best first, each target once. */
#include "vp.h"
#include "correspondences.h"
int take_best_candidates(n_tupel *src, n_tupel *dst, int num_cams, int num_cands, int **tusage);
#ifndef N
#define N 3
#endif
#ifndef NC
#define NC 4
#endif
#ifndef T
#define T 2
#endif
static int same(const n_tupel *a, const n_tupel *b)
{
    int c, r = a->corr == b->corr;
    for (c = 0; c < NC; c++) r &= a->p[c] == b->p[c];
    return r;
}
void h_take(void)
{
    n_tupel src[N], old[N], dst[N + 1]; int um[NC][T], used[NC][T], *tu[NC], i, j, c, t, n, k, m = vp_pick(vp_int("candidates", 0, N)), a, b, ok;
    for (i = 0; i < N; i++) {
        for (c = 0; c < 4; c++) src[i].p[c] = c < NC ? vp_int("p", -2, T - 1) : 9;
#ifdef FIXED
        src[i].corr = (i * FIXED) % N;
#else
        src[i].corr = vp_double("corr", 0, 100);
#endif
        old[i] = src[i];
    }
    for (c = 0; c < NC; c++) { tu[c] = um[c]; for (t = 0; t < T; t++) { um[c][t] = vp_int("used", 0, 2); used[c][t] = um[c][t] > 0; } }
    for (i = 0; i <= N; i++) dst[i].p[0] = 4711;
    n = take_best_candidates(src, dst, NC, m, tu);
    /* the candidates are only reordered, best first */
    for (i = 0; i < N; i++) {
        if (i >= m) { vp_assert(same(&src[i], &old[i]), "only the given candidates are touched"); continue; }
        if (i) vp_assert(src[i - 1].corr >= src[i].corr, "best first");
        a = b = 0;
        for (j = 0; j < m; j++) { a += same(&src[i], &src[j]); b += same(&src[i], &old[j]); }
        vp_assert(a == b, "the candidates are only reordered");
    }
    /* greedy choice */
    k = 0;
    for (i = 0; i < m; i++) {
        ok = 1;
        for (c = 0; c < NC; c++) for (t = 0; t < T; t++) ok &= !((src[i].p[c] == t) & used[c][t]);
        ok = vp_pick(ok);
        for (c = 0; c < NC; c++) for (t = 0; t < T; t++) used[c][t] |= ok & (src[i].p[c] == t);
        if (!ok) continue;
        vp_assert(k < n, "a match is accepted if none of its targets was taken before");
        vp_assert(same(&dst[k], &src[i]), "accepted in order, with the members and the score");
        k++;
    }
    vp_assert(n == k, "the number returned is that of the accepted matches");
    for (i = k; i <= N; i++) vp_assert(dst[i].p[0] == 4711, "nothing written behind the accepted matches");
    ok = 1;
    for (c = 0; c < NC; c++) for (t = 0; t < T; t++) ok &= (um[c][t] > 0) == used[c][t];
    vp_assert(ok, "exactly the targets of accepted matches are marked");
    if (k == 2 && m == N) vp_reach("some");
}
