/* C11: every sorting helper sorts and only permutes. Records carry an id; all other fields must travel with it. */
#include "vp.h"
#include "correspondences.h"
#include "track.h"
#include <string.h>
#ifndef N
#define N 5
#endif
#ifndef FREE            /* number of symbolic keys; the others are concrete: 0 = all */
#define FREE 0
#endif
static double key(int i, int n, const char *name)
{
    if (FREE && i % ((n + FREE - 1) / FREE) != 0) return (double)((i * 7) % n);
    return vp_fpint(name, -9, 9 + (FREE ? N : 0));
}
#if FREE
#define LEN() (N)
#else
#define LEN() vp_int("n", 0, N)
#endif

void h_target_y(void)
{
    int n = LEN(), i, j;
    target *buf = malloc((n + !n) * sizeof(target)); target old[N + 1];
    if (!n) { free(buf); buf = malloc(1); }
    for (i = 0; i < n; i++) {
        target t; t.pnr = i; t.x = 100.5 + i; t.n = 7 * i + 1; t.nx = i + 3; t.ny = 2 * i + 5; t.sumg = 1000 - i; t.tnr = i - 2;
        t.y = key(i, n, "y"); buf[i] = t; old[i] = t;
    }
    quicksort_target_y(buf, n);
    for (i = 0; i < n; i++) {
        int k = buf[i].pnr;
        vp_assert(k >= 0 && k < n, "target list: ids of the input");
        vp_assert(buf[i].y == old[k].y && buf[i].x == old[k].x && buf[i].n == old[k].n && buf[i].nx == old[k].nx &&
                  buf[i].ny == old[k].ny && buf[i].sumg == old[k].sumg && buf[i].tnr == old[k].tnr, "target record intact");
        if (i) vp_assert(buf[i - 1].y <= buf[i].y, "targets ordered by y");
        for (j = 0; j < i; j++) vp_assert(buf[j].pnr != k, "no target duplicated");
    }
    free(buf);
    vp_reach("end");
}
void h_coord2d_x(void)
{
    int n = LEN(), i, j;
    coord_2d *buf = malloc((n + !n) * sizeof(coord_2d)); coord_2d old[N + 1];
    if (!n) { free(buf); buf = malloc(1); }
    for (i = 0; i < n; i++) { buf[i].pnr = i; buf[i].y = 3.25 - i; buf[i].x = key(i, n, "x"); old[i] = buf[i]; }
    quicksort_coord2d_x(buf, n);
    for (i = 0; i < n; i++) {
        int k = buf[i].pnr;
        vp_assert(k >= 0 && k < n, "coordinate list: ids of the input");
        vp_assert(buf[i].x == old[k].x && buf[i].y == old[k].y, "coordinate record intact");
        if (i) vp_assert(buf[i - 1].x <= buf[i].x, "coordinates ordered by x");
        for (j = 0; j < i; j++) vp_assert(buf[j].pnr != k, "no coordinate duplicated");
    }
    free(buf);
    vp_reach("end");
}
void h_con(void)
{
    int n = LEN(), i, j, c;
    n_tupel *buf = malloc((n + !n) * sizeof(n_tupel)); n_tupel old[N + 1];
    if (!n) { free(buf); buf = malloc(1); }
    for (i = 0; i < n; i++) {
        for (c = 0; c < 4; c++) buf[i].p[c] = c ? 10 * i + c : i;
        buf[i].corr = key(i, n, "corr"); old[i] = buf[i];
    }
    quicksort_con(buf, n);
    for (i = 0; i < n; i++) {
        int k = buf[i].p[0];
        vp_assert(k >= 0 && k < n, "match list: ids of the input");
        vp_assert(buf[i].corr == old[k].corr && buf[i].p[1] == old[k].p[1] && buf[i].p[2] == old[k].p[2] &&
                  buf[i].p[3] == old[k].p[3], "match record intact");
        if (i) vp_assert(buf[i - 1].corr >= buf[i].corr, "matches ordered by descending score");
        for (j = 0; j < i; j++) vp_assert(buf[j].p[0] != k, "no match duplicated");
    }
    free(buf);
    vp_reach("end");
}
void h_index_by_value(void)
{
    int n = LEN(), i, j;
    float *a = malloc(n * sizeof(float) + !n), old[N + 1]; int *b = malloc(n * sizeof(int) + !n);
    for (i = 0; i < n; i++) { a[i] = (float)key(i, n, "a"); old[i] = a[i]; b[i] = i; }
    sort(n, a, b);
    for (i = 0; i < n; i++) {
        vp_assert(b[i] >= 0 && b[i] < n, "index list: ids of the input");
        vp_assert(a[i] == old[b[i]], "index travels with its value");
        if (i) vp_assert(a[i - 1] <= a[i], "indices ordered by ascending value");
        for (j = 0; j < i; j++) vp_assert(b[j] != b[i], "no index duplicated");
    }
    free(a); free(b);
    vp_reach("end");
}
