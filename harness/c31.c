/* C31: whole tracking runs over short sequences, and the set-up of a run. */
#include "vp.h"
#include "track.h"
#ifndef MAXLEN
#define MAXLEN 6
#endif
#define FIRST 10001
static framebuf_base fb;
static fb_vtable vt;
static track_par tpar;
static volume_par vpar;
static control_par cpar;
static mm_np mm;
static sequence_par seqp;
static tracking_run run;
static Calibration cal0, *calp[1] = {&cal0};
static int nread, nwritten, backward, len, now;
static int linked[MAXLEN + 1], wprev[MAXLEN + 1], wnext[MAXLEN + 1], good[MAXLEN + 1];
static int number(frame *f) { return f->num_parts > 0 ? (int) f->path_info[0].x[0] : 0; }
static int nothing(frame *f) { return f->num_parts <= 0 && f->num_targets[0] <= 0; }

void vp_override_point_to_pixel(vec2d v, vec3d p, Calibration *cal, control_par *cp) { v[0] = p[0]; v[1] = p[1]; (void)cal; (void)cp; }
foundpix *vp_override_sorted_candidates_in_volume(vec3d center, vec2d proj[], frame *f, tracking_run *r)
{
    foundpix *w; int want, dir = backward ? -1 : 1; (void)center; (void)proj; (void)r;
    vp_assert(number(fb.buf[1]) == now, "the current frame is the one with the number of the step");
    if (now != FIRST + (backward ? len - 1 : 0)) vp_assert(number(fb.buf[0]) == now - dir, "behind the current frame is the one before");
    vp_assert(f == fb.buf[2] || f == fb.buf[3], "candidates are searched in the next two frames");
    want = f == fb.buf[2] ? now + dir : now + 2 * dir;
    if (want < FIRST || want > FIRST + len - 1) {
#ifdef BEYOND
        vp_assert(nothing(f), "there are no candidates beyond the sequence");
#endif
        return NULL;
    }
    else vp_assert(number(f) == want, "the frames ahead are those with the following numbers");
    w = (foundpix *) malloc(2 * sizeof *w);
    w[0].ftnr = 0; w[0].freq = 2; w[1].ftnr = -1;
    return w;
}
int vp_override_assess_new_position(vec3d pos, vec2d tp[], int inds[][MAX_CANDS], frame *f, tracking_run *r) { (void)pos; (void)tp; (void)inds; (void)f; (void)r; return 0; }
void vp_override_angle_acc(vec3d s, vec3d p, vec3d c, double *angle, double *acc) { (void)s; (void)p; (void)c; *angle = 1; *acc = good[now - FIRST] ? 0.1 : 3; }
static int rd(fbp self, int n, int links)
{
    frame *f = self->buf[self->buf_len - 1]; int i = n - FIRST;
    vp_assert(n == (backward ? FIRST + len - 1 - nread : FIRST + nread), "each frame of the sequence is read once and in order");
    vp_assert(n >= FIRST && n < FIRST + len, "only frames of the sequence are read");
    if (n < FIRST || n >= FIRST + len) return 0;
    vp_assert((links != 0) == backward, "links are read for backward tracking");
    nread++;
    f->num_parts = 1; f->num_targets[0] = 1;
    memset(f->path_info, 0, sizeof(P));
    f->path_info[0].x[0] = n; f->path_info[0].inlist = 0; f->path_info[0].finaldecis = 1000000;
    f->path_info[0].prev = backward && i > 0 && linked[i] ? 0 : PREV_NONE;
    f->path_info[0].next = backward && i < len - 1 && linked[i + 1] ? 0 : NEXT_NONE;
    f->correspond[0].nr = 1; f->correspond[0].p[0] = 0; f->targets[0][0].x = f->targets[0][0].y = 1; f->targets[0][0].tnr = 0;
    return 1;
}
static int wr(fbp self, int n)
{
    vp_assert(n == (backward ? FIRST + len - 2 - nwritten : FIRST + nwritten), "each frame is written once and in order");
    vp_assert(number(self->buf[0]) == n, "a frame is written under its own number");
    if (n < FIRST || n >= FIRST + len) return 0;
    wprev[n - FIRST] = self->buf[0]->path_info[0].prev; wnext[n - FIRST] = self->buf[0]->path_info[0].next;
    nwritten++;
    now = now + (backward ? -1 : 1);
    return 1;
}
static void setup(int lo)
{
    int i;
    len = vp_pick(vp_int("frames", lo, MAXLEN));
    fb_base_init(&fb, TR_BUFSPACE, 1, 2);
    vt.read_frame_at_end = rd; vt.write_frame_from_start = wr; fb._vptr = &vt;
    cpar.num_cams = 1; cpar.mm = &mm; cpar.imx = cpar.imy = 100;
    seqp.first = FIRST; seqp.last = FIRST + len - 1;
    run.fb = &fb; run.seq_par = &seqp; run.tpar = &tpar; run.vpar = &vpar; run.cpar = &cpar; run.cal = calp; run.lmax = 50;
    tpar.dvxmin = tpar.dvymin = tpar.dvzmin = -10; tpar.dvxmax = tpar.dvymax = tpar.dvzmax = 10;
    tpar.dacc = 2; tpar.dangle = 100;
    for (i = 0; i < len; i++) { good[i] = vp_pick(vp_int("good", 0, 1)); linked[i] = backward ? vp_pick(vp_int("linked", 0, 1)) : 0; }
}
static void consistent(int a, int b)
{
    int i;
    for (i = a; i < b; i++) vp_assert((wnext[i] == 0) == (wprev[i + 1] == 0), "the written frames agree on their links");
    for (i = a; i <= b; i++) vp_assert((wnext[i] == 0 || wnext[i] == NEXT_NONE) && (wprev[i] == 0 || wprev[i] == PREV_NONE), "links are indices or none");
}
void h_run(void)
{
    int i, step, links = 0;
    setup(3);
    track_forward_start(&run);
    for (step = FIRST; step < FIRST + len - 1; step++) { now = step; trackcorr_c_loop(&run, step); }
    trackcorr_c_finish(&run, seqp.last);
    vp_assert(nread == len && nwritten == len, "every frame is read and written");
    consistent(0, len - 1);
    vp_assert(wprev[0] == PREV_NONE && wnext[len - 1] == NEXT_NONE, "no links out of the sequence");
    for (i = 0; i < len - 1; i++) {
        if (good[i]) vp_assert(wnext[i] == 0 || i == len - 2, "a good candidate is linked");
        if (!good[i]) vp_assert(wnext[i] == NEXT_NONE, "a bad one is not");
        links += wnext[i] == 0;
    }
    vp_assert(run.npart == len - 1 && run.nlinks == links, "particles and links are counted");
    vp_reach("end");
}
void h_runback(void)
{
    int i;
    backward = 1;
    setup(4);
    now = FIRST + len - 2;
    trackback_c(&run);
    vp_assert(nread == len && nwritten == len - 1, "every frame is read and all but the last, which cannot change, are written");
    wnext[len - 1] = NEXT_NONE; wprev[len - 1] = linked[len - 1] ? 0 : PREV_NONE;
    consistent(0, len - 1);
    for (i = 1; i < len; i++) if (linked[i]) vp_assert(wprev[i] == 0, "links of the forward run are kept");
    vp_reach("end");
}
/* ---------------------------------------------------------------- set-up */
static double cx[8], cy[8]; static int ncall;
void vp_override_ray_tracing(double x, double y, Calibration *cal, mm_np m, double pos[3], double a[3])
{
    int i = ((x > 0) ? 1 : 0) + ((y > 0) ? 2 : 0) + (cal == calp[0] ? 0 : 4); (void)m;
    pos[0] = cx[i]; pos[1] = cy[i]; pos[2] = 0; a[0] = 1; a[1] = 2; a[2] = 8;
    ncall++;
}
void h_new(void)
{
    tracking_run *t; char *names[1] = {"img"}; int i; double ymin, ymax, xmin, xmax, x, y;
    cpar.num_cams = 1; cpar.mm = &mm; cpar.imx = 100; cpar.imy = 50; cpar.pix_x = cpar.pix_y = 0.5;
    cal0.added_par.scx = 1;
    seqp.first = FIRST; seqp.last = FIRST + 5; seqp.img_base_name = names;
    tpar.dvxmin = -2; tpar.dvxmax = 0; tpar.dvymin = 1; tpar.dvymax = 4; tpar.dvzmin = -3; tpar.dvzmax = 3;
    vpar.X_lay[0] = vp_double("x0", -100, 0); vpar.X_lay[1] = 20;
    vpar.Zmin_lay[0] = vp_pick(vp_int("z0", 0, 1)) * 8; vpar.Zmin_lay[1] = 8 - vpar.Zmin_lay[0]; vpar.Zmax_lay[0] = 16; vpar.Zmax_lay[1] = 24;
    for (i = 0; i < 4; i++) { cx[i] = 3 * i - 5; cy[i] = 7 - 4 * i; }
    i = vp_pick(vp_int("corner", 0, 3)); cx[i] = vp_double("cx", -200, 200); cy[i] = vp_double("cy", -200, 200);
    cy[3 - i] = vp_double("cy", -200, 200);
    xmin = vpar.X_lay[0]; xmax = vpar.X_lay[1];
    ymin = 1e9; ymax = -1e9;
    y = vpar.Zmin_lay[0] < vpar.Zmin_lay[1] ? vpar.Zmin_lay[0] : vpar.Zmin_lay[1];
    for (i = 0; i < 8; i++) {
        x = cx[i % 4] + (i < 4 ? y : 24) / 8; if (x < xmin) xmin = x; if (x > xmax) xmax = x;
        x = cy[i % 4] + (i < 4 ? y : 24) / 4; if (x < ymin) ymin = x; if (x > ymax) ymax = x;
    }
    t = tr_new(&seqp, &tpar, &vpar, &cpar, TR_BUFSPACE, 3, "res/rt_is", "res/ptv_is", "res/added", calp, 7);
    vp_assert(vp_initialised(&t->ymin, sizeof t->ymin) && vp_initialised(&t->ymax, sizeof t->ymax), "the extents are defined");
    vp_assert(vp_close(t->ymin, ymin, 1e-9) && vp_close(t->ymax, ymax, 1e-9), "the vertical extent is that of the imaged volume");
    vp_assert(vp_close(vpar.X_lay[0], xmin, 1e-9) && vp_close(vpar.X_lay[1], xmax, 1e-9), "the horizontal extent covers the volume given and imaged");
    vp_assert(vpar.Zmin_lay[0] == y && vpar.Zmax_lay[1] == 24, "the depth is that of the measuring volume");
    vp_assert(vp_close(t->lmax * t->lmax, 4 + 9 + 36, 1e-9) && t->lmax > 0, "the largest displacement");
    vp_assert(t->tpar == &tpar && t->vpar == &vpar && t->cpar == &cpar && t->seq_par == &seqp && t->cal == calp && t->flatten_tol == 7, "the parameters are those given");
    vp_assert(t->npart == 0 && t->nlinks == 0 && t->fb->buf_len == TR_BUFSPACE && t->fb->num_cams == 1 && t->fb->buf[0]->max_targets == 3, "an empty buffer and zero counts");
    vp_reach("end");
}

/* a frame that cannot be read, after one that could */
void h_unread(void)
{
    frame f; char a[400], l[400], t0[400], *tb[1]; int ok, n = vp_pick(vp_int("targets", 0, 2));
    vp_scratch_path(a, "rt_is"); vp_scratch_path(l, "ptv_is"); vp_scratch_path(t0, "cam."); tb[0] = t0;
    frame_init(&f, 1, 2);
    f.num_parts = 1; f.num_targets[0] = n;
    write_frame(&f, a, l, NULL, tb, 17);
    read_frame(&f, a, NULL, NULL, tb, 17);
    vp_assert(f.num_parts == 1 && f.num_targets[0] == n, "the frame is read");
    ok = read_frame(&f, a, NULL, NULL, tb, 18);
    vp_assert(ok == 0, "a frame that cannot be read is reported");
    vp_assert(f.num_parts <= 0, "a frame that cannot be read has no particles");
    vp_assert(f.num_targets[0] <= 0, "no targets of another frame remain in a frame that cannot be read");
    free_frame(&f);
    vp_reach("end");
}
