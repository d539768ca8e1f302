/* C15: peak-fitting detection. */
#include "vp.h"
#include "segmentation.h"
#ifndef FROM
#define FROM 0
#endif
#ifndef TO
#define TO 9
#endif
#ifndef NFREE
#define NFREE 2
#endif
#define W 6
#define H 5
#define CAP 12
static control_par cp; static target_par tp; static target pix[CAP + 2], wide[CAP + 2];
static unsigned char *img, *img0; static int cam;
#ifdef SMALL      /* touching regions closer than two pixels, so that no grey value profile is needed */
static const char *PAT[] = {"122232", "212231", "1122", "202122", "001001", "545344", "041403", "11124142", "505243", "131404"};
#else
static const char *PAT[] = {
    "12223242", "21312232", "11122243", "02122252", "11223342", "20212223", "2112223223", "0010200111", "1222324252", "5453434423"};
#endif
static const int GREY[5] = {90, 60, 120, 45, 150};
static void picture(int k, int nfree, int first)
{
    const char *p = PAT[k]; int i, q = 0;
    memset(&cp, 0, sizeof cp); cp.imx = W; cp.imy = H;
    memset(&tp, 0, sizeof tp);
    img = malloc(W * H);
    for (i = 0; i < W * H; i++) img[i] = 0;
    for (; *p; p += 2, q++) img[(p[1] - '0') * W + p[0] - '0'] = q >= first && q < first + nfree ? vp_u8("pixel") : GREY[q];
    img0 = malloc(W * H); memcpy(img0, img, W * H);
    cam = (k & 1) * 3;
    for (i = 0; i < 4; i++) tp.gvthres[i] = 250;
    for (i = 0; i < CAP + 2; i++) pix[i].n = wide[i].n = -7;
    tp.nnmin = tp.nxmin = tp.nymin = 0; tp.nnmax = tp.nxmax = tp.nymax = 99; tp.sumg_min = 0; tp.cr_sz = 3;
}
static void image_kept(void) { int i, ok = 1; for (i = 0; i < W * H; i++) ok &= img[i] == img0[i]; vp_assert(ok, "the image stays as it was"); }
static int at(int x, int y) { return x < 0 || x >= W || y < 0 || y >= H ? 0 : img0[y * W + x]; }
static int owner[W * H], nreg;
typedef struct { int n, x0, x1, y0, y1, sum, sx, sy; } region;
static region reg[W * H];
static void regions(int x0, int x1, int y0, int y1, int thres, int disco)
{
    static const int DX[8] = {-1, 1, 0, 0, -1, -1, 1, 1}, DY[8] = {0, 0, -1, 1, -1, 1, -1, 1};
    int x, y, k, more, i, j, d, g;
    nreg = 0;
    for (i = 0; i < W * H; i++) owner[i] = 0;
    for (y = y0; y < y1 - 1; y++) for (x = x0; x < x1; x++) {
        if (at(x, y) <= thres || owner[y * W + x]) continue;
        for (k = 0; k < 8; k++) if (at(x + DX[k], y + DY[k]) > at(x, y)) break;
        if (k < 8) continue;
        nreg++; owner[y * W + x] = nreg;
        do {
            more = 0;
            for (j = y0; j < y1 - 1; j++) for (i = x0; i < x1; i++) {
                if (owner[j * W + i] || at(i, j) <= thres) continue;
                for (k = 0; k < 4; k++) {
                    if (i + DX[k] < x0 || i + DX[k] >= x1 || j + DY[k] < y0 || j + DY[k] >= y1) continue;
                    if (owner[(j + DY[k]) * W + i + DX[k]] != nreg) continue;
                    g = at(i + DX[k], j + DY[k]) + disco;
                    if (at(i, j) > g) continue;
                    for (d = 0; d < 4; d++) if (at(i + DX[d], j + DY[d]) > g) break;
                    if (d < 4) continue;
                    owner[j * W + i] = nreg; more = 1; break;
                }
            }
        } while (more);
    }
    for (k = 0; k < nreg; k++) {
        region *r = &reg[k];
        r->n = r->sum = r->sx = r->sy = 0; r->x0 = r->y0 = 99; r->x1 = r->y1 = -1;
        for (y = 0; y < H; y++) for (x = 0; x < W; x++) if (owner[y * W + x] == k + 1) {
            r->n++; r->sum += at(x, y); r->sx += x * at(x, y); r->sy += y * at(x, y);
            if (x < r->x0) r->x0 = x; if (x > r->x1) r->x1 = x; if (y < r->y0) r->y0 = y; if (y > r->y1) r->y1 = y;
        }
    }
}
/* does target t consist of the regions in the set? */
static int made_of(target *t, int set, int centre)
{
    int i, n = 0, sum = 0, sx = 0, sy = 0, x0 = 99, x1 = -1, y0 = 99, y1 = -1, ok;
    for (i = 0; i < nreg; i++) if (set >> i & 1) {
        region *r = &reg[i];
        n += r->n; sum += r->sum; sx += r->sx; sy += r->sy;
        if (r->x0 < x0) x0 = r->x0; if (r->x1 > x1) x1 = r->x1; if (r->y0 < y0) y0 = r->y0; if (r->y1 > y1) y1 = r->y1;
    }
    ok = (t->n == n) & (t->sumg == sum) & (t->nx == x1 - x0 + 1) & (t->ny == y1 - y0 + 1);
    if (ok && centre) ok &= vp_close((t->x - .5) * sum, sx, 1e-6) & vp_close((t->y - .5) * sum, sy, 1e-6);
    return ok;
}
static int partition(int t, int m, int left, int centre)
{
    int set, ok = 0;
    if (t == m) return left == 0;
    for (set = 1; set <= left && !ok; set++) if ((set & left) == set && made_of(&pix[t], set, centre)) ok = partition(t + 1, m, left & ~set, centre);
    return ok;
}
static const int AREA[5][4] = {{0, W, 0, H}, {-3, 99, -1, 77}, {1, W - 1, 1, H - 1}, {2, W, 1, H}, {1, 4, 2, 9}};
static void fit(int a, int centre)
{
    int c, i, x0, x1, y0, y1;
    x0 = AREA[a][0]; x1 = AREA[a][1]; y0 = AREA[a][2]; y1 = AREA[a][3];
    c = peak_fit(img, &tp, x0, x1, y0, y1, &cp, cam, pix);
    image_kept();
    if (x0 < 0) x0 = 0; if (y0 < 0) y0 = 0; if (x1 > W) x1 = W; if (y1 > H) y1 = H;
    regions(x0, x1, y0, y1, tp.gvthres[cam], tp.discont);
    vp_assert(c >= 0 && c <= nreg, "no more targets than regions"); if (c > nreg) return;
    vp_assert((c == 0) == (nreg == 0), "something is reported if there is something");
    for (i = 0; i < c; i++) vp_assert(pix[i].pnr == i && pix[i].tnr == -1, "numbered in order, without a correspondence");
    vp_assert(pix[c].n == -7, "nothing behind the list");
    vp_assert(partition(0, c, (1 << nreg) - 1, centre), "every target is a region or a union of regions, every region is in one target only");
    if (c > 1) vp_reach("several");
    if (c < nreg) vp_reach("unified");
    vp_reach("end");
}
void h_fit(void)
{
    int k = vp_pick(vp_int("picture", FROM, TO)), first = vp_pick(vp_int("first", 0, 4));
    vp_assume(2 * (first + NFREE) <= (int)strlen(PAT[k]));
    picture(k, NFREE, first);
    tp.gvthres[cam] = vp_int("threshold", 0, 255); tp.discont = vp_int("discontinuity", 0, 255);
    fit(vp_pick(vp_int("area", 0, 2)), 0);
}
/* known pictures with longer targets: the profile decides about unification */
void h_profile(void)
{
    int k = vp_pick(vp_int("picture", FROM, TO));
    picture(k, 0, 0);
    tp.gvthres[cam] = vp_int("threshold", 0, 255); tp.discont = vp_int("discontinuity", 0, 255);
    fit(vp_pick(vp_int("area", 0, 4)), 1);
}
/* known pictures, any limits */
void h_limits(void)
{
    int k = vp_pick(vp_int("picture", FROM, TO)), a = vp_pick(vp_int("area", 0, 4)), all, c, i, m = 0;
    picture(k, 0, 0);
    tp.gvthres[cam] = 10 + 60 * vp_pick(vp_int("threshold", 0, 1)); tp.discont = 40 * vp_pick(vp_int("discontinuity", 0, 2)); tp.sumg_min = -1;
    all = peak_fit(img, &tp, AREA[a][0], AREA[a][1], AREA[a][2], AREA[a][3], &cp, cam, wide);
    tp.nnmin = vp_int("nnmin", 0, 6); tp.nnmax = vp_int("nnmax", 0, 6); tp.nxmin = vp_int("nxmin", 0, 6); tp.nxmax = vp_int("nxmax", 0, 6);
    tp.nymin = vp_int("nymin", 0, 6); tp.nymax = vp_int("nymax", 0, 6); tp.sumg_min = vp_int("sumg_min", 0, 1000);
    c = peak_fit(img, &tp, AREA[a][0], AREA[a][1], AREA[a][2], AREA[a][3], &cp, cam, pix);
    for (i = 0; i < all; i++) {
        target *t = &wide[i];
        if (t->n < tp.nnmin || t->n > tp.nnmax || t->nx < tp.nxmin || t->nx > tp.nxmax || t->ny < tp.nymin || t->ny > tp.nymax || t->sumg <= tp.sumg_min) continue;
        vp_assert(m < c, "every target within the limits is reported");
        if (m >= c) return;
        vp_assert(pix[m].n == t->n && pix[m].sumg == t->sumg && pix[m].nx == t->nx && pix[m].ny == t->ny && pix[m].x == t->x && pix[m].y == t->y, "the same target");
        vp_assert(pix[m].pnr == m && pix[m].tnr == -1, "numbered in order, without a correspondence");
        m++;
    }
    vp_assert(c == m, "targets beyond a limit are not reported");
    if (m) vp_reach("some");
    vp_reach("end");
}
/* more peaks than there was memory for */
void h_many(void)
{
    int i, j, c, n = 130; target *p = malloc(5000 * sizeof(target));
    picture(0, 0, 0); cp.imx = cp.imy = n; tp.gvthres[cam] = vp_int("threshold", 5, 9); tp.sumg_min = 3;
    img = malloc(n * n); for (i = 0; i < n * n; i++) img[i] = 0;
    for (i = 0; i < n - 1; i += 2) for (j = 0; j < n; j += 2) img[i * n + j] = 10;
    c = peak_fit(img, &tp, 0, n, 0, n, &cp, cam, p);
    vp_assert(c == (n / 2 - 1) * (n / 2 - 1), "all single pixels but those at the border");
    vp_reach("end");
}
