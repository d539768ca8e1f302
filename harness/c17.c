/* C17: target files. */
#include "vp.h"
#include "tracking_frame_buf.h"
#ifndef N
#define N 2
#endif
#define ANY(s) vp_int(s, -2147483647 - 1, 2147483647)
static target t[N + 1], r[N + 1];
static void any_target(target *p)
{
    p->pnr = ANY("pnr"); p->x = vp_double("x", -1e6, 1e6); p->y = vp_double("y", -1e6, 1e6); p->n = ANY("n"); p->nx = ANY("nx"); p->ny = ANY("ny");
    p->sumg = ANY("sumg"); p->tnr = ANY("tnr");
}
/* in every field, positions up to the four printed decimals */
static int same(const target *a, const target *b)
{
    return (a->pnr == b->pnr) & (a->n == b->n) & (a->nx == b->nx) & (a->ny == b->ny) & (a->sumg == b->sumg) & (a->tnr == b->tnr)
        & vp_le(a->x, b->x + 5e-5, 1e-9) & vp_le(b->x, a->x + 5e-5, 1e-9) & vp_le(a->y, b->y + 5e-5, 1e-9) & vp_le(b->y, a->y + 5e-5, 1e-9);
}
static char base[600];
/* the documented name: base, four-digit frame number when it is positive, suffix */
static void name_of(char *s, int frame)
{
    if (frame > 0) sprintf(s, "%s%04d_targets", base, frame); else sprintf(s, "%s_targets", base);
}
static void result(int got, int n)
{
    int i;
    vp_assert(got == n, "the number of targets read is the number written");
    for (i = 0; i < n; i++) vp_assert(same(&r[i], &t[i]), "each target is read back in every field");
}
/* the library reads what a program following the documented format writes */
void h_read(void)
{
    char name[700]; int i, n = vp_pick(vp_int("num", 0, N)), frame = ANY("frame"); FILE *f;
    vp_scratch_path(base, "img."); name_of(name, frame);
    f = fopen(name, "w");
    fprintf(f, "%d\n", n);
    for (i = 0; i < n; i++) {
        any_target(&t[i]);
        fprintf(f, "%4d %9.4f %9.4f %5d %5d %5d %5d %5d\n", t[i].pnr, t[i].x, t[i].y, t[i].n, t[i].nx, t[i].ny, t[i].sumg, t[i].tnr);
    }
    fclose(f);
    result(read_targets(r, base, frame), n);
    vp_reach("read");
}
/* and writes what such a program reads; other frames' files are not touched */
void h_write(void)
{
    char name[700]; int i, n = vp_pick(vp_int("num", 0, N)), frame = ANY("frame"), k = -1; FILE *f;
    vp_scratch_path(base, "img."); name_of(name, frame);
    for (i = 0; i < n; i++) any_target(&t[i]);
    vp_readonly(t, 1);
    vp_assert(write_targets(t, n, base, frame) != 0, "writing reports success");
    vp_readonly(t, 0);
    vp_assert(vp_numbers(name) == 1 + 8 * n, "the file has the documented name and a count followed by eight numbers per target");
    f = fopen(name, "r");
    if (fscanf(f, "%d", &k) != 1) k = -1;
    for (i = 0; i < n; i++)
        vp_assert(fscanf(f, "%d %lf %lf %d %d %d %d %d", &r[i].pnr, &r[i].x, &r[i].y, &r[i].n, &r[i].nx, &r[i].ny, &r[i].sumg, &r[i].tnr) == 8, "each record is complete");
    fclose(f);
    result(k, n);
    vp_reach("written");
}
/* two frames written in turn, an older longer list replaced */
void h_roundtrip(void)
{
    int i, n = vp_pick(vp_int("num", 0, N)), m = vp_pick(vp_int("num2", 0, N)), frame = ANY("frame"), other = ANY("other");
    target u[N + 1];
    vp_assume((frame != other) & ((frame > 0) | (other > 0)));
    vp_scratch_path(base, "cam1.");
    for (i = 0; i < n; i++) any_target(&t[i]);
    for (i = 0; i < m; i++) any_target(&u[i]);
    vp_assert(write_targets(u, m, base, frame) != 0, "writing reports success");
    vp_assert(write_targets(u, m, base, other) != 0, "writing reports success");
    vp_assert(write_targets(t, n, base, frame) != 0, "writing reports success");
    result(read_targets(r, base, frame), n);
    for (i = 0; i < m; i++) t[i] = u[i];
    result(read_targets(r, base, other), m);
    vp_reach("end");
}
/* missing, cut after any number of words, or with a word that is no number */
void h_damaged(void)
{
    char name[700]; int i, n = vp_pick(vp_int("num", 0, N)), frame = vp_pick(vp_int("frame", 0, 1)) * 17, kind = vp_pick(vp_int("kind", 0, 3)), k;
    vp_scratch_path(base, "img."); name_of(name, frame);
    for (i = 0; i < n; i++) any_target(&t[i]);
    if (kind == 3) {            /* a count that is no count */
        FILE *f = fopen(name, "w"); fprintf(f, "%d\n", vp_int("count", -2147483647 - 1, -1)); fclose(f);
        vp_reach("count");
    } else {
        vp_assert(write_targets(t, n, base, frame) != 0, "writing reports success");
        if (kind == 0) { vp_unlink(name); vp_reach("missing"); }
        else if (kind == 1) { vp_words_keep(name, vp_pick(vp_int("keep", 0, 8 * n))); vp_reach("cut"); }
        else { vp_word_replace(name, vp_pick(vp_int("word", 0, 8 * n)), "x7"); vp_reach("word"); }
    }
    k = read_targets(r, base, frame);
    vp_assert(k == -1, "a missing, cut or malformed file is reported as -1");
}
/* a place that cannot be written is reported */
void h_nodir(void)
{
    int n = vp_pick(vp_int("num", 0, 1)), frame = vp_pick(vp_int("frame", 0, 1));
    any_target(&t[0]);
    vp_scratch_path(base, "nodir/img.");
    vp_assert(write_targets(t, n, base, frame) == 0, "a file that cannot be created is reported");
    vp_assert(read_targets(r, base, frame) == -1, "a missing file is reported as -1");
    vp_reach("end");
}
