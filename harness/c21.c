/* C21: merging the candidate lists of the cameras. */
#include "vp.h"
#include "track.h"
#ifndef NC
#define NC 4
#endif
#ifndef K
#define K 9
#endif
#ifndef USED
#define USED 4       /* slots of a camera that may hold a particle */
#endif
#define NI (NC * MAX_CANDS)
#ifdef LISTS         /* given particles, S for any */
#define S -2
static const int lists[NI] = {LISTS};
#define SLOT(i) (lists[i] == S ? vp_int("ftnr", -1, K) : lists[i])
#else
#define SLOT(i) (i % 4 < USED ? vp_int("ftnr", -1, K) : -1)
#endif
void h_merge(void)
{
    foundpix it[NI]; int seen[K + 1][NC], i, j, c, p, best = 0, cnt, nexp = 0, any = 0, found;
    for (p = 0; p <= K; p++) for (c = 0; c < NC; c++) seen[p][c] = 0;
    for (i = 0; i < NI; i++) {
        for (c = 0; c < TR_MAX_CAMS; c++) it[i].whichcam[c] = 0;
        it[i].freq = 0;
        it[i].ftnr = SLOT(i);
        for (j = i - i % 4; j < i; j++) vp_assume(it[i].ftnr == -1 || it[j].ftnr != it[i].ftnr);
        if (it[i].ftnr != -1) { it[i].whichcam[i / 4] = 1; seen[it[i].ftnr][i / 4] = 1; any = 1; }
    }
    for (p = 0; p <= K; p++) {
        cnt = 0;
        for (c = 0; c < NC; c++) cnt += seen[p][c];
        if (cnt >= 2) nexp++;
        if (cnt > best) best = cnt;
    }
    if (!nexp && any) nexp = 1;
    cnt = sort_candidates_by_freq(it, NC);
    vp_assert(cnt == nexp, "the number returned is that of the particles seen by two cameras, or one if there is none");
    for (i = 0; i < NI; i++) {
        if (i >= nexp) { vp_assert(it[i].ftnr == -1 && it[i].freq == 0, "nothing counts behind the merged candidates"); continue; }
        p = it[i].ftnr;
        vp_assert(p >= 0 && p <= K, "a merged candidate is a particle");
        if (p < 0 || p > K) continue;
        found = 0;
        for (c = 0; c < NC; c++) {
            found += seen[p][c];
            vp_assert((it[i].whichcam[c] == 1) == seen[p][c], "exactly the cameras that saw it are recorded");
        }
        vp_assert(it[i].freq == found, "the frequency is the number of cameras");
        vp_assert(found >= 1, "only particles that were seen");
        if (i) vp_assert(it[i].freq <= it[i - 1].freq, "ordered by the number of cameras");
        for (j = 0; j < i; j++) vp_assert(it[j].ftnr != p, "each particle once");
    }
    if (best >= 2 || NC < 2) vp_reach("end");
}
void h_reset_copy(void)
{
    foundpix a[3], b[3]; int i, c, n = vp_int("n", 0, 3), nc = vp_int("cams", 1, TR_MAX_CAMS);
    for (i = 0; i < 3; i++) {
        a[i].ftnr = vp_int("ftnr", -1, 1000); a[i].freq = vp_int("freq", 0, 4); b[i].ftnr = 7000 + i; b[i].freq = 70;
        for (c = 0; c < TR_MAX_CAMS; c++) { a[i].whichcam[c] = vp_int("cam", 0, 1); b[i].whichcam[c] = 9; }
    }
    copy_foundpix_array(b, a, n, nc);
    for (i = 0; i < 3; i++) {
        if (i >= n) { vp_assert(b[i].ftnr == 7000 + i && b[i].freq == 70 && b[i].whichcam[0] == 9, "only the given length is written"); continue; }
        vp_assert(a[i].ftnr == b[i].ftnr && a[i].freq == b[i].freq, "copied");
        for (c = 0; c < TR_MAX_CAMS; c++) vp_assert(b[i].whichcam[c] == (c < nc ? a[i].whichcam[c] : 9), "cameras copied");
    }
    reset_foundpix_array(a, n, nc);
    for (i = 0; i < n; i++) {
        vp_assert(a[i].ftnr == -1 && a[i].freq == 0, "reset to unused");
        for (c = 0; c < nc; c++) vp_assert(a[i].whichcam[c] == 0, "no camera after the reset");
    }
    vp_reach("end");
}
