/* C14 / C15: target detection. */
#include "vp.h"
#include "segmentation.h"
#ifndef FROM
#define FROM 0
#endif
#ifndef TO
#define TO 5
#endif
#define W 6
#define H 5
#define CAP 12
static control_par cp; static target_par tp; static target pix[CAP + 2];
static unsigned char *img, *img0; static int cam;
static const char *PAT[] = {  /* the symbolic pixels of each picture: pairs x, y */
    "12223242", "21312232", "11122243", "02122252", "11223342", "21222324", "2112223223", "1121314132", "1213222333", "31324142"};
static void picture(int k, int known)
{
    const char *p = PAT[k]; int i;
    memset(&cp, 0, sizeof cp); cp.imx = W; cp.imy = H;
    memset(&tp, 0, sizeof tp);
    img = malloc(W * H);
    for (i = 0; i < W * H; i++) img[i] = 0;
    for (; *p; p += 2) img[(p[1] - '0') * W + p[0] - '0'] = known ? 60 + 17 * (p[0] - '0') + 5 * (p[1] - '0') : vp_u8("pixel");
    img0 = malloc(W * H); memcpy(img0, img, W * H);
    cam = (k & 1) * 3;
    for (i = 0; i < 4; i++) tp.gvthres[i] = i * 13 + 1;
    for (i = 0; i < CAP + 2; i++) pix[i].n = -7;
    tp.nnmin = tp.nxmin = tp.nymin = 0; tp.nnmax = tp.nxmax = tp.nymax = 99; tp.sumg_min = 0; tp.cr_sz = 3;
}
static void image_kept(void) { int i, ok = 1; for (i = 0; i < W * H; i++) ok &= img[i] == img0[i]; vp_assert(ok, "the image stays as it was"); }
static int at(int x, int y) { return img0[y * W + x]; }
static int owner[W * H], nreg;
typedef struct { int n, x0, x1, y0, y1, sum; double sx, sy; } region;
static region reg[W * H];
/* regions grown downhill from local maxima, by definition */
static void regions(int x0, int x1, int y0, int y1, int thres, int disco)
{
    static const int DX[8] = {-1, 1, 0, 0, -1, -1, 1, 1}, DY[8] = {0, 0, -1, 1, -1, 1, -1, 1};
    int x, y, k, more, i, j, d, g, peak;
    nreg = 0;
    for (i = 0; i < W * H; i++) owner[i] = 0;
    for (y = y0; y < y1; y++) for (x = x0; x < x1; x++) {
        region *r = &reg[nreg];
        if (owner[y * W + x] || at(x, y) <= thres) continue;
        peak = 1;
        for (k = 0; k < 8; k++) { i = (y + DY[k]) * W + x + DX[k]; if (!owner[i] && img0[i] > at(x, y)) { peak = 0; break; } }
        if (!peak) continue;
        nreg++; owner[y * W + x] = nreg;
        do {
            more = 0;
            for (j = y0; j < y1; j++) for (i = x0; i < x1; i++) {
                if (owner[j * W + i] || at(i, j) <= thres) continue;
                for (k = 0; k < 4; k++) {          /* a neighbour already in the region */
                    if (i + DX[k] < x0 || i + DX[k] >= x1 || j + DY[k] < y0 || j + DY[k] >= y1) continue;
                    if (owner[(j + DY[k]) * W + i + DX[k]] != nreg) continue;
                    g = at(i + DX[k], j + DY[k]) + disco;
                    if (at(i, j) > g) continue;
                    for (d = 0; d < 4; d++) if (at(i + DX[d], j + DY[d]) > g) break;
                    if (d < 4) continue;
                    owner[j * W + i] = nreg; more = 1; break;
                }
            }
        } while (more);
    }
    for (k = 0; k < nreg; k++) {
        region *r = &reg[k];
        r->n = r->sum = 0; r->sx = r->sy = 0; r->x0 = r->y0 = 99; r->x1 = r->y1 = -1;
        for (y = 0; y < H; y++) for (x = 0; x < W; x++) if (owner[y * W + x] == k + 1) {
            r->n++; r->sum += at(x, y); r->sx += x * (double)(at(x, y) - thres); r->sy += y * (double)(at(x, y) - thres);
            if (x < r->x0) r->x0 = x; if (x > r->x1) r->x1 = x; if (y < r->y0) r->y0 = y; if (y > r->y1) r->y1 = y;
        }
    }
}
static const int AREA[6][4] = {{0, W, 0, H}, {-3, 99, -1, 77}, {1, W - 1, 1, H - 1}, {2, W, 1, H}, {1, 4, 2, 9}, {3, 3, 0, H}};
static void rec(int a, int centre)
{
    int c, i, m = 0, x0, x1, y0, y1, thres = tp.gvthres[cam];
    x0 = AREA[a][0]; x1 = AREA[a][1]; y0 = AREA[a][2]; y1 = AREA[a][3];
    c = targ_rec(img, &tp, x0, x1, y0, y1, &cp, cam, pix);
    image_kept();
    if (x0 < 1) x0 = 1; if (y0 < 1) y0 = 1; if (x1 > W - 1) x1 = W - 1; if (y1 > H - 1) y1 = H - 1;
    regions(x0, x1, y0, y1, thres, tp.discont);
    for (i = 0; i < nreg; i++) {
        region *r = &reg[i]; int nx = r->x1 - r->x0 + 1, ny = r->y1 - r->y0 + 1; double w;
        if (r->n < tp.nnmin || r->n > tp.nnmax || nx < tp.nxmin || nx > tp.nxmax || ny < tp.nymin || ny > tp.nymax || r->sum <= tp.sumg_min) continue;
        vp_assert(m < c, "every qualifying region is reported");
        if (m >= c) return;
        vp_assert(pix[m].n == r->n, "the number of pixels"); vp_assert(pix[m].nx == nx && pix[m].ny == ny, "the extent");
        vp_assert(pix[m].sumg == r->sum, "the sum of the grey values");
        w = r->sum - r->n * thres;
        if (centre) vp_assert(vp_close((pix[m].x - .5) * w, r->sx, 1e-6) && vp_close((pix[m].y - .5) * w, r->sy, 1e-6), "the centre weighted by the grey values above the threshold");
        vp_assert(pix[m].pnr == m && pix[m].tnr == -1, "numbered in order, without a correspondence");
        m++;
    }
    if (m == 0) { vp_assert(c == 1 && pix[0].n == 1 && pix[0].sumg == 1 && pix[0].x == 1 && pix[0].y == 1 && pix[0].nx == 1 && pix[0].ny == 1 && pix[0].tnr == -1, "one dummy when nothing qualifies"); m = 1; vp_reach("none"); }
    vp_assert(c == m, "nothing else is reported"); vp_assert(pix[m].n == -7, "nothing behind the list");
    if (m > 1) vp_reach("several");
    vp_reach("end");
}
/* any grey values, any threshold, any discontinuity limit */
void h_rec(void)
{
    picture(vp_pick(vp_int("picture", FROM, TO)), 0);
    tp.gvthres[cam] = vp_int("threshold", 0, 255); tp.discont = vp_int("discontinuity", 0, 255);
    rec(vp_pick(vp_int("area", 0, 1)), 0);
}
/* known picture, any limits */
void h_limits(void)
{
    int k = vp_pick(vp_int("picture", 0, 9));
    picture(k, 1);
    tp.nnmin = vp_int("nnmin", 0, 6); tp.nnmax = vp_int("nnmax", 0, 6); tp.nxmin = vp_int("nxmin", 0, 6); tp.nxmax = vp_int("nxmax", 0, 6);
    tp.nymin = vp_int("nymin", 0, 6); tp.nymax = vp_int("nymax", 0, 6); tp.sumg_min = vp_int("sumg_min", 0, 1000); tp.discont = 40 * vp_pick(vp_int("discontinuity", 0, 2));
    rec(vp_pick(vp_int("area", 0, 5)), 1);
}
/* the centre: a known picture with one unknown pixel, any threshold */
void h_centre(void)
{
    int k = vp_pick(vp_int("picture", 0, 9)), q = vp_pick(vp_int("pixel", 0, 4)), p;
    vp_assume(2 * q < (int)strlen(PAT[k]));
    picture(k, 1);
    p = (PAT[k][2 * q + 1] - '0') * W + PAT[k][2 * q] - '0';
    img[p] = img0[p] = vp_u8("pixel"); tp.gvthres[cam] = vp_int("threshold", 0, 30); tp.discont = 200;
    rec(0, 1);
}
