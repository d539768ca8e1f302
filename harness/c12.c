/* C12: finding correspondences yields a consistent, counted, memory-safe result. */
#include "vp.h"
#include "correspondences.h"
#ifndef NC
#define NC 3
#endif
#define T NMAX          /* as many targets as the library provides for */
#ifndef FREE
#define FREE 0          /* pairs of cameras all of whose edges are free; the others: those of target 0 */
#endif
#ifndef ROW
#define ROW 63
#endif
static const int bit[4][4] = {{0, 1, 2, 4}, {0, 0, 8, 16}, {0, 0, 0, 32}};
static int edge[4][4][T][T], cnt[4];
static int score(int c1, int i, int c2, int j) { return 2 + (3 * c1 + 5 * i + 2 * c2 + j) % 4; }
/* the matching lists the search works on (find_candidate and the lists are decided in C08, C09 and h_pairs) */
void vp_override_match_pairs(correspond *list[4][4], coord_2d **corrected, frame *frm, volume_par *vpar, control_par *cpar, Calibration **calib)
{
    int c1, c2, i, t, k;
    for (c1 = 0; c1 < NC - 1; c1++) for (c2 = c1 + 1; c2 < NC; c2++) for (i = 0; i < cnt[c1]; i++) {
        for (t = k = 0; t < cnt[c2]; t++) if (edge[c1][c2][i][t]) {
            list[c1][c2][i].p2[k] = t; list[c1][c2][i].corr[k] = score(c1, i, c2, t); list[c1][c2][i].dist[k] = 1; k++;
        }
        list[c1][c2][i].n = k; list[c1][c2][i].p1 = k ? i : 0;
    }
}
static double minimum;
static int size(n_tupel *m) { int c, r = 0; for (c = 0; c < NC; c++) r += m->p[c] >= 0; return r; }
/* members of a clique above the minimum? only cameras with p >= 0 take part */
static int clique(const int *p)
{
    int a, b, s = 0, d = 0;
    for (a = 0; a < NC - 1; a++) for (b = a + 1; b < NC; b++) {
        if (p[a] < 0 || p[b] < 0) continue;
        if (!edge[a][b][p[a]][p[b]]) return 0;
        s += score(a, p[a], b, p[b]); d++;
    }
    return s > minimum * d;
}
void h_corr(void)
{
    frame frm; target tg[4][T + 1], *tp[4]; coord_2d co[4][T + 1], *cp[4]; volume_par vpar; control_par cpar; mm_np mm; n_tupel *m;
    int c, c1, c2, i, j, t, n, bg, mc[4], owner[4][T], p[4], q, free_;
    memset(&vpar, 0, sizeof vpar); memset(&cpar, 0, sizeof cpar);
    cpar.mm = &mm; cpar.num_cams = NC; cpar.allCam_flag = vp_pick(vp_int("all cameras", 0, 1));
    frm.num_cams = NC; frm.targets = tp; frm.num_targets = cnt;
    bg = vp_pick(vp_int("background", 0, 1));
    minimum = vp_double("minimum", 0, 6); vpar.corrmin = minimum;
    for (c = 0; c < NC; c++) {
#ifdef COUNTS
        cnt[c] = vp_pick(vp_int("targets", 0, T));
#else
        cnt[c] = T;
#endif
        tp[c] = tg[c]; cp[c] = co[c];
        for (t = 0; t <= T; t++) { tg[c][t].tnr = t < T ? CORRES_NONE : 4711; tg[c][t].pnr = t; co[c][t].x = t; co[c][t].y = c; co[c][t].pnr = t < cnt[c] ? cnt[c] - 1 - t : T; }
    }
    for (c1 = 0; c1 < NC - 1; c1++) for (c2 = c1 + 1; c2 < NC; c2++) for (i = 0; i < cnt[c1]; i++) for (t = 0; t < cnt[c2]; t++)
        edge[c1][c2][i][t] = (i == 0 && (ROW & bit[c1][c2])) || (FREE & bit[c1][c2]) ? vp_pick(vp_int("edge", 0, 1)) : bg || i == t;
    m = correspondences(&frm, cp, &vpar, &cpar, 0, mc);
    vp_assert(m != 0, "a result");
    if (!m) return;
    vp_assert(mc[0] >= 0 && mc[1] >= 0 && mc[2] >= 0 && mc[3] == mc[0] + mc[1] + mc[2], "the total is the sum of the counts");
    n = mc[3];
    vp_assert(NC == 4 || !mc[0], "no quadruplets without four cameras");
    vp_assert(NC >= 3 || !mc[1], "no triplets without three cameras");
    vp_assert(!(cpar.allCam_flag && (mc[2] || (NC == 4 && mc[1]))), "only complete matches when these are asked for");
    for (c = 0; c < NC; c++) for (t = 0; t < T; t++) owner[c][t] = CORRES_NONE;
    for (i = 0; i < n; i++) {
        vp_assert(size(&m[i]) == (i < mc[0] ? 4 : i < mc[0] + mc[1] ? 3 : 2), "grouped by number of cameras");
        if (i && size(&m[i]) == size(&m[i - 1])) vp_assert(m[i].corr <= m[i - 1].corr, "best first within a group");
        for (c = 0; c < NC; c++) {
            if (m[i].p[c] < 0) continue;
            vp_assert(m[i].p[c] < cnt[c], "members exist");
            if (m[i].p[c] >= cnt[c]) return;
            vp_assert(owner[c][m[i].p[c]] == CORRES_NONE, "each target in one match only");
            owner[c][m[i].p[c]] = i;
        }
        vp_assert(clique(m[i].p), "every two members are candidates of each other and the score is above the minimum");
    }
    for (c = 0; c < NC; c++) for (t = 0; t <= T; t++)
        vp_assert(tg[c][t].tnr == (t < cnt[c] ? owner[c][cnt[c] - 1 - t] : t < T ? CORRES_NONE : 4711), "targets carry the number of their match, the others none");
    /* no clique of the larger groups is left over */
    for (q = NC == 4 ? 4 : 3; q >= 3; q--) {
        int all = 0, left = 0, lost[4][4];
        if (q == 4 ? NC < 4 : NC < 3 || (NC == 4 && cpar.allCam_flag)) continue;
        for (j = 0; j < (1 << NC); j++) for (t = 0; t < (1 << NC); t++) {
            free_ = 1; i = 0;
            for (c = 0; c < NC; c++) {
                p[c] = j & (1 << c) ? (t >> c) & 1 : -2;
                if (p[c] < 0) { if (t & (1 << c)) free_ = 0; continue; }
                i++;
                if (p[c] >= cnt[c] || (owner[c][p[c]] != CORRES_NONE && size(&m[owner[c][p[c]]]) >= q)) free_ = 0;
            }
            if (i == q) { double w = minimum; minimum = -1; for (c = 0; c < NC; c++) if (p[c] >= cnt[c]) i = -1; if (i == q) all += clique(p); minimum = w; }
            if (i == q && free_ && left < 4) { memcpy(lost[left], p, sizeof p); left++; }
        }
        /* (when there are more cliques than the library provides for, some may be) */
        for (i = 0; i < left; i++) if (all <= NC * NMAX) vp_assert(!clique(lost[i]), "a clique of unused targets is not passed over");
    }
    free(m);
    if (n > 1) vp_reach("several");
}
/* the pairwise lists: the segment of each point is searched in the other image with the properties of its own target */
static int want, calls, res[8], epis; static double seg[2]; static Calibration cal[4]; static coord_2d *cp_[4]; static target *tp_[4];
void vp_override_epi_mm(double xl, double yl, Calibration *c1, Calibration *c2, mm_np *mmp, volume_par *vpar, double *xmin, double *ymin, double *xmax, double *ymax)
{
    epis++; *xmin = xl + 100 * (c1 - cal); *ymin = yl + 100 * (c2 - cal); *xmax = xl + 7; *ymax = yl + 9;
}
int vp_override_find_candidate(coord_2d *crd, target *pix, int num, double xa, double ya, double xb, double yb, int n, int nx, int ny, int sumg,
    candidate cand[], volume_par *vpar, control_par *cpar, Calibration *c)
{
    int c1, c2 = c - cal, i, j, r;
    for (c1 = 0; c1 < 4; c1++) for (i = 0; i < cnt[c1]; i++) if (n == 1000 * c1 + 10 * cp_[c1][i].pnr) goto ok;
    vp_assert(0, "the properties are those of the point's target"); return 0;
ok: vp_assert(nx == n + 1 && ny == n + 2 && sumg == n + 3, "size and brightness of the point's target");
    vp_assert(crd == cp_[c2] && pix == tp_[c2] && num == cnt[c2], "the other image is searched");
    vp_assert(xa == cp_[c1][i].x + 100 * c1 && ya == cp_[c1][i].y + 100 * c2 && xb == cp_[c1][i].x + 7 && yb == cp_[c1][i].y + 9, "along the point's segment");
    r = (c1 * 5 + c2 * 3 + i) % 4 - 1;      /* -1: outside the sensor */
    if (r == 2 && i == 0) r = MAXCAND;
    for (j = 0; j < r; j++) { cand[j].pnr = 17 * c1 + c2 + 3 * i + j; cand[j].corr = c1 + j; cand[j].tol = c2 + j + .5; }
    calls++;
    return r;
}
void h_pairs(void)
{
    frame frm; target tg[4][3]; coord_2d co[4][3]; volume_par vpar; control_par cpar; mm_np mm; static correspond L[4][4][3]; correspond *list[4][4]; Calibration *cl[4];
    int c1, c2, c, i, j, r, k = vp_pick(vp_int("cameras", 2, 4));
    memset(&vpar, 0, sizeof vpar); memset(&cpar, 0, sizeof cpar); cpar.mm = &mm; cpar.num_cams = k;
    frm.num_cams = k; frm.targets = tp_; frm.num_targets = cnt;
    for (c = 0; c < 4; c++) {
        tp_[c] = tg[c]; cp_[c] = co[c]; cl[c] = &cal[c]; cnt[c] = c >= k ? 0 : c < 2 ? vp_pick(vp_int("targets", 0, 2)) : 4 - c;
        for (i = 0; i < 3; i++) {
            tg[c][i].n = 1000 * c + 10 * i; tg[c][i].nx = tg[c][i].n + 1; tg[c][i].ny = tg[c][i].n + 2; tg[c][i].sumg = tg[c][i].n + 3; tg[c][i].pnr = i;
            co[c][i].pnr = i < cnt[c] ? cnt[c] - 1 - i : 2; co[c][i].y = 3 * i - c;
            co[c][i].x = (c < 2 && i == 0 && vp_pick(vp_int("unused", 0, 1))) ? PT_UNUSED : 2 * i + c;
        }
        for (c1 = 0; c1 < 4; c1++) { list[c1][c] = L[c1][c]; for (i = 0; i < 3; i++) { L[c1][c][i].n = 0; L[c1][c][i].p1 = 0; } }
    }
    match_pairs(list, cp_, &frm, &vpar, &cpar, cl);
    for (c1 = 0; c1 < k - 1; c1++) for (c2 = c1 + 1; c2 < k; c2++) for (i = 0; i < cnt[c1]; i++) {
        correspond *l = &L[c1][c2][i];
        if (co[c1][i].x == PT_UNUSED) { vp_assert(l->n == 0, "unused points have no candidates"); continue; }
        r = (c1 * 5 + c2 * 3 + i) % 4 - 1;
        if (r == 2 && i == 0) r = MAXCAND;
        vp_assert(l->p1 == i, "the list belongs to the point");
        vp_assert(r > 0 ? l->n == r : l->n <= 0, "as many candidates as found");
        for (j = 0; j < r && j < 4; j++) vp_assert(l->p2[j] == 17 * c1 + c2 + 3 * i + j && l->corr[j] == c1 + j && l->dist[j] == c2 + j + .5, "the candidates found");
    }
    vp_reach("end");
}
/* allocation of the scratch lists */
void h_alloc(void)
{
    correspond *list[4][4]; int counts[4], c1, c2, i, k = vp_pick(vp_int("cameras", 1, 4)), **u;
    for (i = 0; i < 4; i++) counts[i] = vp_pick(vp_int("targets", 0, 2));
    vp_assert(safely_allocate_adjacency_lists(list, k, counts) == 1, "allocated");
    for (c1 = 0; c1 < k - 1; c1++) for (c2 = c1 + 1; c2 < k; c2++) for (i = 0; i < counts[c1]; i++) {
        vp_assert(list[c1][c2][i].n == 0 && list[c1][c2][i].p1 == 0, "no candidates at first");
        list[c1][c2][i].dist[MAXCAND - 1] = 1;
    }
    deallocate_adjacency_lists(list, k);
    u = safely_allocate_target_usage_marks(k);
    vp_assert(u != 0, "allocated");
    for (c1 = 0; c1 < k; c1++) for (i = 0; i < NMAX; i++) vp_assert(u[c1][i] == 0, "no target used at first");
    deallocate_target_usage_marks(u, k);
    vp_reach("end");
}
