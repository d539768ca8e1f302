/* C16: image filters. */
#include "vp.h"
#include "image_processing.h"
#ifndef MX
#define MX 4
#endif
#ifndef LARGE
#define LARGE 0
#endif
#ifndef MY
#define MY 4
#endif
static control_par cp; static int W, H, SZ; static unsigned char *a, *b, *o, *a0, *b0;
static unsigned char *image(int full)
{
    unsigned char *p = malloc(SZ); int i;
    for (i = 0; i < SZ; i++) p[i] = full ? vp_u8("pixel") : 77;
    return p;
}
static unsigned char *keep(unsigned char *p) { unsigned char *q = malloc(SZ); memcpy(q, p, SZ); return q; }
static void same(unsigned char *p, unsigned char *q) { int i, ok = 1; for (i = 0; i < SZ; i++) ok &= p[i] == q[i]; vp_assert(ok, "an input image stays as it was"); }
static void size(int lx, int hx, int ly, int hy)
{
    memset(&cp, 0, sizeof cp);
    W = vp_pick(vp_int("width", lx, hx)); H = vp_pick(vp_int("height", ly, hy)); SZ = W * H; cp.imx = W; cp.imy = H;
}
static const double FILT[8][9] = {{1, 1, 1, 1, 1, 1, 1, 1, 1}, {1, 2, 3, 4, 5, 6, 7, 8, 9}, {0, -1, 0, -1, 5, -1, 0, -1, 0}, {.5, 0, 0, 0, .25, 0, 0, 0, .25},
                                  {-1, -2, -4, -8, -16, -32, -64, -128, 0}, {64, 0, 0, 0, -1, 0, 0, 0, 1}, {0, 0, 3, 0, 0, 0, -4, 0, 0}, {1, 0, -1, 2, 0, -2, 1, 0, -1}};
void h_filter3(void)
{
    int i, k, f, r; filter_t filt; double sum = 0;
    size(1, MX, 1, MY); f = vp_pick(vp_int("filter", 0, 7));
    vp_assume(f < 7 || W + H < 5);
    if (W * H > 12) vp_assume(f >= 2 && f <= 3);
    for (i = 0; i < 9; i++) { ((double *)filt)[i] = FILT[f][i]; sum += FILT[f][i]; }
    a = image(1); a0 = keep(a); o = image(0);
    r = filter_3(a, o, filt, &cp);
    same(a, a0);
    vp_assert(r == (sum != 0), "0 for a filter that sums to zero, 1 otherwise");
    for (i = 0; i < SZ; i++) {
        double s = 0; int v = o[i];
        if (sum == 0 || i < W + 1 || i >= SZ - W - 1) { vp_assert(v == 77, "border pixels are not touched"); continue; }
        for (k = 0; k < 9; k++) s += FILT[f][k] * a0[i + (k / 3 - 1) * W + k % 3 - 1];
        /* s / sum, cut to a whole number (the weighted sum may be cut first) and kept within 8..255 */
        if (sum < 0) { s = -s; }
        vp_assert((v == 8) | (v == 255) | ((v + 1) * fabs(sum) > s - 1), "the weighted mean, not less");
        vp_assert(v >= 8 && ((v == 8) | (v * fabs(sum) <= s)), "the weighted mean, not more, at least 8");
        vp_assert((v != 8) | (s < 9 * fabs(sum) + 1), "8 only for dark means");
        vp_assert((v != 255) | (s >= 255 * fabs(sum)), "255 only for bright means");
        vp_reach("pixel");
    }
    vp_reach("end");
}
void h_lowpass(void)
{
    int i, k;
    size(1, MX, 1, MY);
    a = image(1); a0 = keep(a); o = image(0);
    lowpass_3(a, o, &cp);
    same(a, a0);
    for (i = 0; i < SZ; i++) {
        int s = 0;
        if (i < W + 1 || i >= SZ - W - 1) { vp_assert(o[i] == 77, "border pixels are not touched"); continue; }
        for (k = 0; k < 9; k++) s += a0[i + (k / 3 - 1) * W + k % 3 - 1];
        vp_assert(o[i] == s / 9, "the mean of the nine pixels"); vp_reach("pixel");
    }
    vp_reach("end");
}
void h_blur(void)
{
    int x, y, i, j, r, span;
    size(1, MX, 1, MY); span = vp_pick(vp_int("span", 0, 2));
    if (LARGE) {        /* two pixels symbolic, everywhere */
        int p = vp_pick(vp_int("place", 0, 35));
        vp_assume(W * H >= 12 && W >= 3 && H >= 3 && p < SZ && (W + H) % 2 == span % 2);
        a = malloc(SZ); for (i = 0; i < SZ; i++) a[i] = (i * 37 + 11) % 251;
        a[p] = vp_u8("pixel"); a[(p + W + 1) % SZ] = vp_u8("pixel");
    } else { vp_assume(W * H < 10); a = image(1); }
    a0 = keep(a); o = image(0);
    r = fast_box_blur(span, a, o, &cp);
    same(a, a0);
    if (2 * span + 1 > W || 2 * span + 1 > H) { vp_assert(r == 0, "a kernel larger than the image is refused"); vp_reach("refused"); return; }
    vp_assert(r == 1, "done");
    for (y = 0; y < H; y++) for (x = 0; x < W; x++) {
        int s = 0, mx = span, my = span, q;
        if (x < mx) mx = x; if (W - 1 - x < mx) mx = W - 1 - x;
        if (y < my) my = y; if (H - 1 - y < my) my = H - 1 - y;
        for (j = y - my; j <= y + my; j++) for (i = x - mx; i <= x + mx; i++) s += a0[j * W + i];
        q = (2 * mx + 1) * (2 * my + 1);
        if (mx == span && my == span) vp_assert((o[y * W + x] * q <= s) & (s < o[y * W + x] * q + q), "the mean of the square around the pixel");
        else vp_assert((o[y * W + x] * q <= s) & (s < (o[y * W + x] + 1 + (mx < span)) * q), "at the edges the mean of the largest rectangle around the pixel (rounded down)");
    }
    vp_reach("end");
}
void h_split(void)
{
    int i, half;
    size(1, MX, 1, MY + 1); half = vp_pick(vp_int("half", 0, 2));
    a = image(1); a0 = keep(a);
    split(a, half, &cp);
    if (half == 0) same(a, a0);
    else for (i = 0; i < SZ; i++) {
        int row = i / W;
        if (row < H / 2) vp_assert(a[i] == a0[(2 * row + (half == 1)) * W + i % W], "the first half holds the odd or even lines");
        else if (i >= SZ / 2) vp_assert(a[i] == 2, "the second half is erased");
    }
    vp_reach("end");
}
void h_simple(void)
{
    int i, op = vp_pick(vp_int("operation", 0, 2)), in = vp_pick(vp_int("in place", 0, 1));
    size(1, 3, 1, 2);
    a = image(1); b = image(1); a0 = keep(a); b0 = keep(b); o = in ? a : image(0);
    if (op == 0) subtract_img(a, b, o, &cp);
    if (op == 1) subtract_mask(a, b, o, &cp);
    if (op == 2) copy_images(a, o, &cp);
    if (!in) same(a, a0);
    same(b, b0);
    for (i = 0; i < SZ; i++) {
        if (op == 0) vp_assert(o[i] == (a0[i] > b0[i] ? a0[i] - b0[i] : 0), "difference, not below zero");
        if (op == 1) vp_assert(o[i] == (b0[i] ? a0[i] : 0), "masked pixels are zero, all others unchanged");
        if (op == 2) vp_assert(o[i] == a0[i], "a copy");
    }
    vp_reach("end");
}
/* the chain is the composition of its steps */
#ifndef FREE
#define FREE 3
#endif
void h_prepare(void)
{
    int i, r, hp, field, span; unsigned char *lp, *d, *e; char path[200]; FILE *f; filter_t filt; int missing = 0;
    size(3, MX, 3, MY); hp = vp_pick(vp_int("filter", 0, 2)); field = vp_pick(vp_int("field", 0, 2)); span = vp_pick(vp_int("span", 0, 1));
    cp.chfield = field;
    a = malloc(SZ); for (i = 0; i < SZ; i++) a[i] = (i * 37 + 11) % 251;
    for (i = 0; i < FREE; i++) a[(i * 5 + 4) % SZ] = vp_u8("pixel");
    a0 = keep(a); o = image(0); lp = image(0); d = image(0); e = image(0);
    vp_scratch_path(path, "filter.par");
    for (i = 0; i < 9; i++) ((double *)filt)[i] = FILT[1][i];
    if (hp == 2) {
        missing = vp_pick(vp_int("damaged", 0, 3));
        if (missing != 1) {
            f = fopen(path, "w");
            for (i = 0; i < 9 - (missing == 2); i++) { if (missing == 3 && i == 4) fprintf(f, "x "); else fprintf(f, "%.1f%c", ((double *)filt)[i], i % 3 == 2 ? '\n' : ' '); }
            fclose(f);
        }
    }
    r = prepare_image(a, o, span, hp, path, &cp);
    vp_assert(vp_open_files() == 0, "no file left open");
    same(a, a0);
    if (missing) { vp_assert(r == 0, "a missing or damaged filter file is reported"); vp_reach("damaged"); return; }
    vp_assert(r == 1, "done");
    fast_box_blur(span, a, lp, &cp);
    subtract_img(a, lp, d, &cp);
    if (field) split(d, field, &cp);
    memcpy(e, d, SZ);
    if (hp == 1) lowpass_3(d, e, &cp);
    if (hp == 2) filter_3(d, e, filt, &cp);
    for (i = 0; i < SZ; i++) vp_assert(o[i] == e[i], "the high-pass image, split and filtered as asked");
    vp_reach("end");
}
