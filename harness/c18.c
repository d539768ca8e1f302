/* C18: frame correspondence and link files. */
#include "vp.h"
#include "tracking_frame_buf.h"
#ifndef N
#define N 2
#endif
#ifndef LO
#define LO 1         /* files without particles: see KNOWN_FINDINGS */
#endif
#ifndef HI
#define HI N
#endif
#define ANY(s) vp_int(s, -2147483647 - 1, 2147483647)
static corres c[N + 1], cr[N + 1];
static P p[N + 1], r[N + 1];
static char cb[400], lb[400], pb[400];
static void bases(void) { vp_scratch_path(cb, "rt_is"); vp_scratch_path(lb, "ptv_is"); vp_scratch_path(pb, "added"); }
static void any_particle(int i)
{
    int k;
    c[i].nr = i + 1;
    for (k = 0; k < 4; k++) c[i].p[k] = ANY("p");
    for (k = 0; k < 3; k++) p[i].x[k] = vp_double("x", -1e6, 1e6);
    p[i].prev = ANY("prev"); p[i].next = ANY("next"); p[i].prio = ANY("prio"); p[i].inlist = 0;
}
static int near3(const double *a, const double *b)   /* up to the three printed decimals */
{
    int k, ok = 1;
    for (k = 0; k < 3; k++) ok = ok & vp_le(a[k], b[k] + 5e-4, 1e-9) & vp_le(b[k], a[k] + 5e-4, 1e-9);
    return ok;
}
static int same_corres(const corres *a, const corres *b)
{ return (a->nr == b->nr) & (a->p[0] == b->p[0]) & (a->p[1] == b->p[1]) & (a->p[2] == b->p[2]) & (a->p[3] == b->p[3]); }
/* what reading gives, with or without the link and priority files */
static void result(int got, int n, int links, int prio)
{
    int i, k, ok;
    vp_assert(got == n, "the number of particles read is the number written");
    for (i = 0; i < n; i++) {
        vp_assert(same_corres(&cr[i], &c[i]), "each correspondence is read back, numbered from one");
        vp_assert(near3(r[i].x, p[i].x), "each position is read back");
        vp_assert(links ? (r[i].prev == p[i].prev) & (r[i].next == p[i].next) : (r[i].prev == PREV_NONE) & (r[i].next == NEXT_NONE),
                  "links are read back, or none without a link file");
        vp_assert(r[i].prio == (prio ? p[i].prio : 4), "priorities are read back, or the default without a priority file");
        ok = (r[i].inlist == 0) & (r[i].finaldecis == 1000000.0);
        for (k = 0; k < POSI; k++) ok = ok & (r[i].decis[k] == 0.0) & (r[i].linkdecis[k] == -999);
        vp_assert(ok, "the candidate list is empty");
    }
}
/* files written by a program following the documented formats */
void h_read(void)
{
    char name[700]; int i, n = vp_pick(vp_int("num", LO, HI)), frame = ANY("frame"), links = vp_pick(vp_int("links", 0, 1)), prio = vp_pick(vp_int("prio", 0, 1)); FILE *f;
    bases();
    for (i = 0; i < n; i++) any_particle(i);
    sprintf(name, "%s.%d", cb, frame); f = fopen(name, "w"); fprintf(f, "%d\n", n);
    for (i = 0; i < n; i++) fprintf(f, "%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n", i + 1, p[i].x[0], p[i].x[1], p[i].x[2], c[i].p[0], c[i].p[1], c[i].p[2], c[i].p[3]);
    fclose(f);
    if (links) {
        sprintf(name, "%s.%d", lb, frame); f = fopen(name, "w"); fprintf(f, "%d\n", n);
        for (i = 0; i < n; i++) fprintf(f, "%4d %4d %10.3f %10.3f %10.3f\n", p[i].prev, p[i].next, p[i].x[0], p[i].x[1], p[i].x[2]);
        fclose(f);
    }
    if (prio) {
        sprintf(name, "%s.%d", pb, frame); f = fopen(name, "w"); fprintf(f, "%d\n", n);
        for (i = 0; i < n; i++) fprintf(f, "%4d %4d %10.3f %10.3f %10.3f %d\n", p[i].prev, p[i].next, p[i].x[0], p[i].x[1], p[i].x[2], p[i].prio);
        fclose(f);
    }
    result(read_path_frame(cr, r, cb, links ? lb : NULL, prio ? pb : NULL, frame), n, links, prio);
    vp_reach("read");
}
/* and written files are what such a program reads */
void h_write(void)
{
    char name[700]; int i, n = vp_pick(vp_int("num", 0, N)), frame = ANY("frame"), prio = vp_pick(vp_int("prio", 0, 1)), k, m, nr; FILE *f; double x[3];
    bases();
    for (i = 0; i < n; i++) any_particle(i);
    vp_readonly(p, 1); vp_readonly(c, 1);
    vp_assert(write_path_frame(c, p, n, cb, lb, prio ? pb : NULL, frame) != 0, "writing reports success");
    vp_readonly(p, 0); vp_readonly(c, 0);
    sprintf(name, "%s.%d", cb, frame);
    vp_assert(vp_numbers(name) == 1 + 8 * n, "the correspondence file has a count and eight numbers per particle");
    f = fopen(name, "r"); m = -1; fscanf(f, "%d", &m); vp_assert(m == n, "the correspondence file starts with the count");
    for (i = 0; i < n; i++) {
        vp_assert(fscanf(f, "%d %lf %lf %lf %d %d %d %d", &nr, &x[0], &x[1], &x[2], &cr[i].p[0], &cr[i].p[1], &cr[i].p[2], &cr[i].p[3]) == 8, "each record is complete");
        cr[i].nr = nr;
        vp_assert(same_corres(&cr[i], &c[i]) & near3(x, p[i].x), "number, position and targets of each particle");
    }
    fclose(f);
    sprintf(name, "%s.%d", lb, frame);
    vp_assert(vp_numbers(name) == 1 + 5 * n, "the link file has a count and five numbers per particle");
    f = fopen(name, "r"); m = -1; fscanf(f, "%d", &m); vp_assert(m == n, "the link file starts with the count");
    for (i = 0; i < n; i++) {
        vp_assert(fscanf(f, "%d %d %lf %lf %lf", &nr, &k, &x[0], &x[1], &x[2]) == 5, "each record is complete");
        vp_assert((nr == p[i].prev) & (k == p[i].next) & near3(x, p[i].x), "links and position of each particle");
    }
    fclose(f);
    sprintf(name, "%s.%d", pb, frame);
    if (!prio) { vp_assert(vp_numbers(name) == -1, "no priority file unless asked for"); vp_reach("no prio"); return; }
    vp_assert(vp_numbers(name) == 1 + 6 * n, "the priority file has a count and six numbers per particle");
    f = fopen(name, "r"); m = -1; fscanf(f, "%d", &m); vp_assert(m == n, "the priority file starts with the count");
    for (i = 0; i < n; i++) {
        int pr;
        vp_assert(fscanf(f, "%d %d %lf %lf %lf %d", &nr, &k, &x[0], &x[1], &x[2], &pr) == 6, "each record is complete");
        vp_assert((nr == p[i].prev) & (k == p[i].next) & (pr == p[i].prio) & near3(x, p[i].x), "links, position and priority of each particle");
    }
    fclose(f);
    vp_reach("written");
}
/* an older longer frame replaced, another frame untouched; whole frames with their targets */
void h_frame(void)
{
    frame a, b; int i, cam, n = vp_pick(vp_int("num", LO, 1)), fn = ANY("frame"), links = vp_pick(vp_int("links", 0, 1)), ok;
    char t0[400], t1[400], *tb[2]; target t[2];
    bases(); vp_scratch_path(t0, "c1_"); vp_scratch_path(t1, "c2_"); tb[0] = t0; tb[1] = t1;
    vp_assume((fn > 0) & (fn < 2147483647));
    frame_init(&a, 2, 2); frame_init(&b, 2, 2);
    a.num_parts = 2; a.num_targets[0] = 1; a.num_targets[1] = 2;
    vp_assert(write_frame(&a, cb, lb, pb, tb, fn) != 0, "writing reports success");
    vp_assert(write_frame(&a, cb, lb, pb, tb, fn + 1) != 0, "writing reports success");
    for (i = 0; i < n; i++) { any_particle(i); a.path_info[i] = p[i]; a.correspond[i] = c[i]; }
    a.num_parts = n; a.num_targets[0] = 1; a.num_targets[1] = n;
    for (cam = 0; cam < 2; cam++) {
        t[cam].pnr = ANY("pnr"); t[cam].x = vp_double("tx", -1e6, 1e6); t[cam].y = vp_double("ty", -1e6, 1e6); t[cam].n = ANY("n"); t[cam].nx = ANY("nx");
        t[cam].ny = ANY("ny"); t[cam].sumg = ANY("sumg"); t[cam].tnr = ANY("tnr");
        a.targets[cam][0] = t[cam];
    }
    vp_assert(write_frame(&a, cb, lb, pb, tb, fn) != 0, "writing reports success");
    vp_assert(read_frame(&b, cb, links ? lb : NULL, links ? pb : NULL, tb, fn) != 0, "reading reports success");
    for (i = 0; i < n; i++) { r[i] = b.path_info[i]; cr[i] = b.correspond[i]; }
    result(b.num_parts, n, links, links);
    vp_assert((b.num_targets[0] == 1) & (b.num_targets[1] == n), "each camera's number of targets");
    for (cam = 0; cam < 2; cam++) if (cam == 0 || n) {
        target *x = &b.targets[cam][0], *y = &t[cam];
        ok = (x->pnr == y->pnr) & (x->n == y->n) & (x->nx == y->nx) & (x->ny == y->ny) & (x->sumg == y->sumg) & (x->tnr == y->tnr)
            & vp_le(x->x, y->x + 5e-5, 1e-9) & vp_le(y->x, x->x + 5e-5, 1e-9) & vp_le(x->y, y->y + 5e-5, 1e-9) & vp_le(y->y, x->y + 5e-5, 1e-9);
        vp_assert(ok, "each camera's targets");
    }
    vp_assert(read_frame(&b, cb, lb, pb, tb, fn + 1) != 0, "the next frame is still there");
    vp_assert((b.num_parts == 2) & (b.num_targets[0] == 1) & (b.num_targets[1] == 2), "the next frame is unchanged");
    free_frame(&a); free_frame(&b);
    vp_reach("end");
}
/* one of the files missing, cut after any number of words, or with a word that is no number */
void h_damaged(void)
{
    char name[700]; int i, n = vp_pick(vp_int("num", 0, N)), kind = vp_pick(vp_int("kind", 0, 2)), which = vp_pick(vp_int("which", 0, 2)), w;
    bases();
    for (i = 0; i < n; i++) any_particle(i);
    vp_assert(write_path_frame(c, p, n, cb, lb, pb, 3) != 0, "writing reports success");
    sprintf(name, "%s.3", which == 0 ? cb : which == 1 ? lb : pb);
    w = n * (which == 0 ? 8 : which == 1 ? 5 : 6);
    if (kind == 0) { vp_unlink(name); vp_reach("missing"); }
    else if (kind == 1) { vp_words_keep(name, vp_pick(vp_int("keep", 0, w))); vp_reach("cut"); }
    else { vp_word_replace(name, vp_pick(vp_int("word", 0, w)), "x7"); vp_reach("word"); }
    vp_assert(read_path_frame(cr, r, cb, lb, pb, 3) == -1, "a missing, cut or malformed file is reported as -1");
}
/* a frame with one unreadable target file is refused */
void h_frame_damaged(void)
{
    frame a, b; int which = vp_pick(vp_int("which", 0, 1)), kind = vp_pick(vp_int("kind", 0, 1));
    char t0[400], t1[400], *tb[2], name[700];
    bases(); vp_scratch_path(t0, "c1_"); vp_scratch_path(t1, "c2_"); tb[0] = t0; tb[1] = t1;
    frame_init(&a, 2, 2); frame_init(&b, 2, 2);
    a.num_parts = 0; a.num_targets[0] = a.num_targets[1] = 1;
    vp_assert(write_frame(&a, cb, lb, pb, tb, 3) != 0, "writing reports success");
    sprintf(name, "%s0003_targets", tb[which]);
    if (kind == 0) vp_unlink(name); else vp_words_keep(name, vp_pick(vp_int("keep", 0, 8)));
    vp_assert(read_frame(&b, cb, lb, pb, tb, 3) == 0, "a frame with a missing or cut target file is refused");
    free_frame(&a); free_frame(&b);
    vp_reach("end");
}
/* a place that cannot be written is reported */
void h_nodir(void)
{
    int which = vp_pick(vp_int("which", 0, 3)), okc = which != 0, okl = which != 1, okp = which != 2;
    frame a; char t0[400], *tb[1];
    vp_scratch_path(cb, okc ? "rt_is" : "nodir/rt_is"); vp_scratch_path(lb, okl ? "ptv_is" : "nodir/ptv_is"); vp_scratch_path(pb, okp ? "added" : "nodir/added");
    vp_scratch_path(t0, which != 3 ? "c1_" : "nodir/c1_"); tb[0] = t0;
    frame_init(&a, 1, 3);
    vp_assert(write_frame(&a, cb, lb, pb, tb, 4) == 0, "a file that cannot be created is reported");
    free_frame(&a);
    vp_reach("end");
}
